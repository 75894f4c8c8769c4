package main

import "strings"

// P35: the invariants the module registers report exactly the broken states.

func ruleP35(w *World, r *R) {
	am := w.P.namedType(pModule, "AppModule")
	r.ob("REGISTERS", "module.AppModule", 0, am != nil && w.method(am, "RegisterInvariants") != nil, "the module has no invariants")
	for _, n := range invariantNames {
		e := w.ByName["Invariant "+n]
		if !r.ob("REGISTERS", n, 0, e != nil, "the invariant is not analysed") {
			continue
		}
		us := w.Units(e)
		reports := 0
		for _, u := range us {
			for _, ev := range allEvents(u.Events) {
				if u.Loop != nil && ev.Kind == "report" {
					r.ob("REGISTERS", n, ev.Pos, false, "the invariant is registered in a loop")
				}
			}
			if u.Loop != nil {
				continue
			}
			var reps []*Event
			for _, ev := range u.Events {
				switch ev.Kind {
				case "report":
					reps = append(reps, ev)
				case "kvset", "kvdel", "pset", "psetone", "bank":
					r.ob("INV-READ-ONLY", n, ev.Pos, false, "the invariant changes the state")
				}
			}
			for _, ev := range allEvents(u.Events) {
				if ev.Kind == "bank" || ev.Kind == "kvset" || ev.Kind == "kvdel" {
					r.ob("INV-READ-ONLY", n, ev.Pos, false, "the invariant changes the state")
				}
			}
			if !r.ob("REGISTERS", n, e.Fn.Pos(), len(reps) == 1, "the invariant is registered %d times under its name", len(reps)) {
				continue
			}
			reports++
			rep := reps[0]
			r.ob("REGISTERS", n, rep.Pos, rep.Args[0] == constStr("dex"), "the invariant is registered for module %v", rep.Args[0])
			iv := &invar{w: w, r: r, n: n, u: u, broken: rep.Args[3]}
			switch n {
			case "deposit-coins-escrow":
				iv.escrowed("DepositRequest", "DepositCoins")
			case "pool-coin-escrow":
				iv.escrowed("WithdrawRequest", "PoolCoin")
			case "remaining-offer-coin-escrow":
				iv.perPair()
			case "pool-status":
				iv.status()
			case "num-mm-orders":
				iv.counts()
			}
		}
		r.ob("REGISTERS", n, e.Fn.Pos(), reports > 0, "the invariant is never evaluated")
	}
	r.together(w)
	r.floor("INV-COUNTS-ALL", 10)
	r.floor("INV-ALL", 6)
	r.floor("INV-BROKEN", 5)
}

type invar struct {
	w      *World
	r      *R
	n      string
	u      *Unit
	broken *Term
}

// over is the loop over the records under a prefix.
func (iv *invar) over(evs []*Event, prefix *Term) *Event {
	for _, ev := range evs {
		if ev.Kind != "loop" || len(ev.Bodies) == 0 {
			continue
		}
		ok := true
		for _, b := range ev.Bodies {
			it := iterIn(b.Facts, prefix)
			ok = ok && it != nil && iterIn(ev.Facts, prefix) == nil
		}
		if ok {
			return ev
		}
	}
	return nil
}

// ended: the facts say the loop saw every record.
func ended(f *Facts, prefix *Term) bool {
	for a, v := range f.m {
		if a.Op == "itervalid" && !v && a.Args[0].Op == "iter" && a.Args[0].Args[0] == prefix {
			return true
		}
	}
	return false
}

func (iv *invar) prefix(rec string, ids ...*Term) *Term {
	as := []*Term{mk("byte", "", nil, constInt(iv.w.Pfx[rec]))}
	for _, i := range ids {
		as = append(as, mk("u64be", "", nil, i))
	}
	return mkCat(as...)
}

func (iv *invar) rec(f *Facts, prefix *Term, rec string) *Term {
	it := iterIn(f, prefix)
	if it == nil {
		return nil
	}
	return mk("dec", pTypes+"."+rec, iv.w.typ(rec), mk("iterval", "", nil, it))
}

// gathered: t is the sum of the coins take names, over the records of a loop:
// 1 those that count, -1 those that do not.
func (iv *invar) gathered(loop *Event, t *Term, prefix *Term, rec string, take func(f *Facts, el *Term) (*Term, int)) {
	r := iv.r
	mi := loop.Mus[t]
	if !r.ob("INV-SUM", iv.n, loop.Pos, mi != nil && len(mi.Backs) == len(loop.Bodies) && isNoCoins(mi.Init), "%v is not the sum of the coins of the %ss", t, rec) {
		return
	}
	for i, b := range mi.Backs {
		f := loop.Bodies[i].Facts
		el := iv.rec(f, prefix, rec)
		c, k := take(f, el)
		switch {
		case k > 0:
			r.ob("INV-COUNTS-ALL", iv.n, loop.Pos, coinsAdded(b.Val, t, c), "the coins of a live %s are not added: %v", rec, b.Val)
		case k < 0:
			r.ob("INV-COUNTS-ALL", iv.n, loop.Pos, b.Val == t, "the coins of a finished %s are added: %v", rec, b.Val)
		default:
			r.ob("INV-COUNTS-ALL", iv.n, loop.Pos, false, "a %s is counted whether or not it is live", rec)
		}
	}
}

func isNoCoins(t *Term) bool {
	return emptyList(t) || t != nil && t.Op == "coins" && len(t.Args) == 0 || t != nil && t.Op == "call" && hasSuffix(t.Name, "types.NewCoins") && (len(t.Args) == 0 || emptyList(t.Args[0]))
}

// coinsAdded: v is a plus the coins c (a coin or a set of them).
func coinsAdded(v, a, c *Term) bool {
	if v == nil || c == nil || v.Op != "call" || !strings.HasSuffix(v.Name, "Coins).Add") || len(v.Args) != 2 {
		return false
	}
	is := func(t *Term) bool {
		return t == c || (t.Op == "list" || t.Op == "coins") && len(t.Args) == 1 && t.Args[0] == c ||
			t.Op == "call" && hasSuffix(t.Name, "types.NewCoins") && len(t.Args) == 1 && (t.Args[0] == c || t.Args[0].Op == "list" && len(t.Args[0].Args) == 1 && t.Args[0].Args[0] == c)
	}
	return v.Args[0] == a && is(v.Args[1]) || v.Args[1] == a && is(v.Args[0])
}

// covers: t says that the balance of an account covers some coins.
func covers(t *Term) (account, coins *Term, ok bool) {
	if t.Op != "call" || len(t.Args) != 2 {
		return
	}
	b, c := t.Args[0], t.Args[1]
	switch {
	case strings.HasSuffix(t.Name, "Coins).IsAllGTE"):
	case strings.HasSuffix(t.Name, "Coins).IsAllLTE"):
		b, c = c, b
	default:
		return
	}
	if b.Op != "bankq" || b.Name != "SpendableCoins" && !strings.HasPrefix(b.Name, "SpendableCoins@") && !strings.HasPrefix(b.Name, "GetAllBalances") || len(b.Args) < 1 {
		return
	}
	return b.Args[0], c, true
}

// escrowed: broken unless the global escrow covers the coins of all requests
// that wait for execution.
func (iv *invar) escrowed(rec, field string) {
	r, u := iv.r, iv.u
	pre := iv.prefix(rec)
	loop := iv.over(u.Events, pre)
	if !r.ob("INV-ALL", iv.n, u.pos(), loop != nil && ended(u.Facts, pre), "not all %ss are looked at", rec) {
		return
	}
	lit, at, ok := Lit{iv.broken, true}, iv.broken, false
	_ = lit
	var acc, sum *Term
	neg := at.Op == "not"
	if neg {
		acc, sum, ok = covers(at.Args[0])
	} else if v, isC := boolOf(at); isC { // decided on the way
		for a, p := range u.Facts.m {
			if x, c, k := covers(a); k && p == !v {
				acc, sum, ok = x, c, true
			}
		}
	}
	if !r.ob("INV-BROKEN", iv.n, u.pos(), ok && acc == escrowGlobal(iv.w), "the invariant is broken when %v", iv.broken) {
		return
	}
	iv.gathered(loop, sum, pre, rec, func(f *Facts, el *Term) (*Term, int) {
		st := F(el, "Status")
		switch {
		case statusIn(f, st, 1):
			return F(el, field), 1
		case statusNone(f, st, 1):
			return nil, -1
		}
		return nil, 0
	})
}

func boolOf(t *Term) (bool, bool) {
	switch t {
	case constBool(true):
		return true, true
	case constBool(false):
		return false, true
	}
	return false, false
}

// flagged: broken is raised by every bad record of a loop and by no other.
func (iv *invar) flagged(loop *Event, prefix *Term, bad func(u *Unit) int) {
	r := iv.r
	if !ended(iv.u.Facts, prefix) {
		// left early
		v, isC := boolOf(iv.broken)
		r.ob("INV-BROKEN", iv.n, iv.u.pos(), isC && v && bad(iv.u) > 0, "the records after some are not looked at")
		return
	}
	var m *Term
	b := iv.broken
	for _, x := range sortedMus(loop) {
		one := ltL(ci(0), x, true)
		if b == x || b == lterm(neL(ci(0), x)) || b == lterm(one) || b == lterm(ltL(x, ci(1), true).not()) {
			m = x
		}
	}
	if v, isC := boolOf(b); isC {
		// decided on the way
		for _, x := range sortedMus(loop) {
			for _, l := range []Lit{neL(ci(0), x), ltL(ci(0), x, true), {x, true}} {
				if x.Typ != nil && iv.u.Facts.has(Lit{l.a, l.p == v}) {
					m = x
				}
			}
		}
	}
	if !r.ob("INV-BROKEN", iv.n, loop.Pos, m != nil, "the invariant is broken when %v", b) {
		return
	}
	mi := loop.Mus[m]
	r.ob("INV-BROKEN", iv.n, loop.Pos, mi.Init == ci(0) || mi.Init == constBool(false), "the invariant is broken from the start: %v", mi.Init)
	if !r.ob("INV-BROKEN", iv.n, loop.Pos, len(mi.Backs) == len(loop.Bodies), "the loop is not followed") {
		return
	}
	for i, bk := range mi.Backs {
		k := bad(&Unit{Entry: iv.u.Entry, Parent: iv.u, Loop: loop, Events: loop.Bodies[i].Events, Facts: loop.Bodies[i].Facts})
		switch {
		case k > 0:
			r.ob("INV-FLAGS", iv.n, loop.Pos, bk.Val == constBool(true) || bk.Val == linAdd(m, ci(1), 1, m.Typ), "a broken record leaves the verdict at %v", bk.Val)
		case k < 0:
			r.ob("INV-FLAGS", iv.n, loop.Pos, bk.Val == m, "a sound record makes the verdict %v", bk.Val)
		default:
			r.ob("INV-FLAGS", iv.n, loop.Pos, false, "a record is judged by something else")
		}
	}
}

func lterm(l Lit) *Term {
	if l.p {
		return l.a
	}
	return mk("not", "", nil, l.a)
}

func (iv *invar) perPair() {
	r, u := iv.r, iv.u
	pre := iv.prefix("Pair")
	loop := iv.over(u.Events, pre)
	if !r.ob("INV-ALL", iv.n, u.pos(), loop != nil, "the pairs are not looked at") {
		return
	}
	iv.flagged(loop, pre, func(b *Unit) int {
		pair := iv.rec(b.Facts, pre, "Pair")
		opre := iv.prefix("Order", F(pair, "Id"))
		in := iv.over(b.Events, opre)
		if !r.ob("INV-ALL", iv.n, loop.Pos, in != nil && ended(b.Facts, opre), "not all orders of a pair are looked at") {
			return 0
		}
		res := 0
		for a := range b.Facts.m {
			acc, sum, ok := covers(a)
			if !ok || acc != addrOf(F(pair, "EscrowAddress")) {
				continue
			}
			iv.gathered(in, sum, opre, "Order", func(f *Facts, o *Term) (*Term, int) {
				st := F(o, "Status")
				switch {
				case statusNone(f, st, 4, 5, 6):
					return F(o, "RemainingOfferCoin"), 1
				case statusIn(f, st, 4, 5, 6):
					return nil, -1
				}
				return nil, 0
			})
			res = 1
			if b.Facts.m[a] {
				res = -1
			}
		}
		return res
	})
}

func (iv *invar) status() {
	r, u := iv.r, iv.u
	pre := iv.prefix("Pool")
	loop := iv.over(u.Events, pre)
	if !r.ob("INV-ALL", iv.n, u.pos(), loop != nil, "the pools are not looked at") {
		return
	}
	iv.flagged(loop, pre, func(b *Unit) int {
		pool := iv.rec(b.Facts, pre, "Pool")
		off := F(pool, "Disabled")
		if b.Facts.has(Lit{off, true}) {
			return -1
		}
		for a, v := range b.Facts.m {
			if a.Op != "eq" && a.Op != "lt" {
				continue
			}
			for _, t := range a.Args {
				if !isSupply(t, F(pool, "PoolCoinDenom")) {
					continue
				}
				z := eqL(ci(0), t)
				if (b.Facts.has(z) || a.Op == "lt" && !v && a.Args[0] == ci(0)) && b.Facts.has(Lit{off, false}) {
					return 1
				}
				if b.Facts.contra(z) || a.Op == "lt" && v && a.Args[0] == ci(0) {
					return -1
				}
			}
		}
		return 0
	})
}

func (iv *invar) counts() {
	r, u, w := iv.r, iv.u, iv.w
	opre, cpre := iv.prefix("Order"), iv.prefix("NumMMOrders")
	orders, counts := iv.over(u.Events, opre), iv.over(u.Events, cpre)
	if !r.ob("INV-ALL", iv.n, u.pos(), orders != nil && counts != nil && ended(u.Facts, opre), "the orders and counts are not all looked at") {
		return
	}
	r.ob("INV-ALL", iv.n, orders.Pos, indexOf(u.Events, orders) < indexOf(u.Events, counts), "the counts are compared before the orders are counted")
	var top *Term // the map
	for _, b := range orders.Bodies {
		o := iv.rec(b.Facts, opre, "Order")
		st, ty := F(o, "Status"), F(o, "Type")
		var sets []*Event
		for _, ev := range allEvents(b.Events) {
			if ev.Kind == "mapset" || ev.Kind == "mapdel" {
				sets = append(sets, ev)
			}
		}
		mm := b.Facts.has(eqL(ci(orderTypeMM), ty))
		switch {
		case mm && statusNone(b.Facts, st, 4, 5, 6):
			m, why := countedUp(b.Facts, sets, F(o, "Orderer"), F(o, "PairId"))
			r.ob("INV-COUNTS-ALL", iv.n, orders.Pos, why == "" && (top == nil || top == m), "a live market making order: %s", why)
			top = m
		case !mm && b.Facts.contra(eqL(ci(orderTypeMM), ty)), statusIn(b.Facts, st, 4, 5, 6):
			r.ob("INV-COUNTS-ALL", iv.n, orders.Pos, len(sets) == 0, "another order is counted")
		default:
			r.ob("INV-COUNTS-ALL", iv.n, orders.Pos, len(sets) == 0 && false, "an order is counted whether or not it is a live market making order")
		}
	}
	iv.flagged(counts, cpre, func(b *Unit) int {
		it := iterIn(b.Facts, cpre)
		num := func(t *Term) bool {
			t = intConv(t)
			return t != nil && t.Op == "beu64" && t.Args[0] == mk("iterval", "", nil, it)
		}
		for a, v := range b.Facts.m {
			switch a.Op {
			case "mapok":
				if !v && iv.inMap(b.Facts, a, top, it) > 0 {
					return 1
				}
			case "eq":
				for i := range a.Args {
					if num(a.Args[i]) && a.Args[1-i].Op == "maplookup" && iv.inMap(b.Facts, a.Args[1-i], top, it) == 2 {
						if v {
							return -1
						}
						return 1
					}
				}
			}
		}
		return 0
	})
	_ = w
}

// inMap: a lookup of the owner (1), or of the owner and pair (2), of the count
// record under it.
func (iv *invar) inMap(f *Facts, t, top, it *Term) int {
	key := mk("iterkey", "", nil, it)
	l := byteAt(key, ci(1))
	from := ci(2)
	to := linAdd(from, l, 1, nil)
	end := linAdd(to, ci(8), 1, nil)
	owner := func(t *Term) bool {
		return t.contains(func(t *Term) bool { return t.Op == "slice" && iv.r.slicePiece(f, t, key, from, to, end, 0) })
	}
	pair := func(t *Term) bool {
		t = intConv(t)
		return t.Op == "beu64" && iv.r.slicePiece(f, t.Args[0], key, to, end, end, 8)
	}
	m, k := t.Args[0], t.Args[1]
	switch {
	case m == top && k.Op == "struct" && len(k.Args) == 2:
		if owner(k.Args[0]) && pair(k.Args[1]) || owner(k.Args[1]) && pair(k.Args[0]) {
			return 2
		}
	case m == top && owner(k):
		return 1
	case m.Op == "maplookup" && m.Args[0] == top && owner(m.Args[1]) && pair(k):
		return 2
	}
	return 0
}

// countedUp: the count of an orderer and pair goes up by one.
func countedUp(f *Facts, sets []*Event, orderer, pair *Term) (*Term, string) {
	if len(sets) == 0 {
		return nil, "it is not counted"
	}
	last := sets[len(sets)-1]
	m, k, v := last.Args[0], last.Args[1], last.Args[2]
	up := func(t *Term) bool { // from what was there
		d := linAdd(t, ci(1), -1, nil)
		return d.Op == "maplookup" && d.Args[0] == m && d.Args[1] == k || d == ci(0)
	}
	if k.Op == "struct" && len(k.Args) == 2 && len(sets) == 1 {
		if !(k.Args[0] == orderer && k.Args[1] == pair || k.Args[1] == orderer && k.Args[0] == pair) {
			return nil, "it is counted under something else"
		}
		if !up(v) || v == ci(1) {
			return nil, "the count does not go up by one"
		}
		return m, ""
	}
	if k != pair {
		return nil, "it is counted for another pair"
	}
	if m.Op == "maplookup" && m.Args[1] == orderer && len(sets) == 1 {
		if !up(v) || v == ci(1) {
			return nil, "the count does not go up by one"
		}
		return m.Args[0], ""
	}
	// the first of the orderer: a new map
	if len(sets) == 2 && v == ci(1) && m.Op == "mkmap" && sets[0].Args[2] == m && sets[0].Args[1] == orderer {
		for a, val := range f.m {
			if a.Op == "mapok" && !val && a.Args[0] == sets[0].Args[0] && a.Args[1] == orderer {
				return sets[0].Args[0], ""
			}
			if a.Op == "isnil" && val && a.Args[0].Op == "maplookup" && a.Args[0].Args[0] == sets[0].Args[0] && a.Args[0].Args[1] == orderer {
				return sets[0].Args[0], ""
			}
		}
	}
	return nil, "the counting is not followed"
}

// together: AllInvariants reports broken exactly when one of them does.
func (r *R) together(w *World) {
	ctors := []string{"DepositCoinsEscrowInvariant", "PoolCoinEscrowInvariant", "RemainingOfferCoinEscrowInvariant", "PoolStatusInvariant", "NumMMOrdersInvariant"}
	var opaque []string
	for _, n := range ctors {
		if w.P.fn(pKeep, "", n) == nil {
			return
		}
		opaque = append(opaque, pKeep+"."+n)
	}
	fn := w.P.fn(pModel, "", "AllInvariants")
	if fn == nil { // there is no such function, and nothing relies on it
		return
	}
	x := w.run(fn, opaque...)
	if !r.ob("INV-TOGETHER", "keeper.AllInvariants", 0, x.Err == "" && len(x.rets()) > 0, "not analysed: %s", x.Err) {
		return
	}
	for _, o := range x.rets() {
		done := map[string]bool{}
		broken, all := false, true
		for _, ev := range o.Events() {
			if ev.Kind != "dyn" || ev.Args[0].Op != "call" {
				continue
			}
			for _, n := range ctors {
				if ev.Args[0].Name != pKeep+"."+n {
					continue
				}
				done[n] = true
				b := proj(ev.Res, 1)
				broken = broken || o.Facts().has(Lit{b, true}) || len(o.Vals) == 1 && o.Vals[0] == b
				all = all && (o.Facts().has(Lit{b, false}) || o.Vals[0] == b)
			}
		}
		v := o.Vals[0]
		no := v == constBool(false) || o.Facts().has(Lit{v, false})
		yes := v == constBool(true) || o.Facts().has(Lit{v, true})
		switch {
		case no || !yes:
			r.ob("INV-TOGETHER", "keeper.AllInvariants", o.Pos, all && len(done) == len(ctors), "the state is called sound after %d invariants", len(done))
		case yes:
			r.ob("INV-TOGETHER", "keeper.AllInvariants", o.Pos, broken, "the state is called broken although no invariant is")
		}
	}
}
