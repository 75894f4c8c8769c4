package main

import (
	"go/types"
	"strings"
)

// P15: what orders matched is settled in full.

// orderRead: t reads the field of the order behind the interface value el,
// directly or through its accessor.
func orderRead(t, el *Term, field string) bool {
	through := func(p *Term) bool { // p points to the order's base part
		for {
			if p == el || p.Op == "as" && p.Args[0] == el {
				return true
			}
			if (p.Op == "field" || p.Op == "deref") && len(p.Args) == 1 {
				p = p.Args[0]
				continue
			}
			return false
		}
	}
	switch t.Op {
	case "field":
		return t.Name == field && through(t.Args[0])
	case "call":
		n, _, _ := strings.Cut(t.Name, "~")
		return len(t.Args) == 1 && (n == pAmm+".Order.Get"+field || n == "(*"+pAmm+".BaseOrder).Get"+field) && through(t.Args[0])
	}
	return false
}

// readsIn lists the reads of a field of an order in a term.
func readsIn(t, el *Term, field string) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	t.walk(func(x *Term) bool {
		if !seen[x] && orderRead(x, el, field) {
			seen[x] = true
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

// orderMatched: the facts say the order was (1) or was not (-1) matched.
func orderMatched(f *Facts, el *Term) int {
	for a, v := range f.m {
		is := false
		switch {
		case a.Op == "call" && len(a.Args) == 1 && a.Args[0].containsTerm(el):
			n, _, _ := strings.Cut(a.Name, "~")
			is = strings.HasSuffix(n, ".IsMatched")
		case a.Op == "lt" && len(a.Args) == 2:
			is = orderRead(a.Args[0], el, "OpenAmount") && orderRead(a.Args[1], el, "Amount")
		}
		if is && v {
			return 1
		} else if is {
			return -1
		}
	}
	return 0
}

func (w *World) isOrderType(el *Term, name string) Lit {
	t := types.NewPointer(w.P.namedType(pTypes, name))
	return Lit{mk("typeis", typeName(t), types.Typ[types.Bool], el), true}
}

func (w *World) asOrder(el *Term, name string) *Term {
	nt := w.P.namedType(pTypes, name)
	return mk("deref", "", nt, mk("as", typeName(types.NewPointer(nt)), types.NewPointer(nt), el))
}

func (w *World) orderFld(el *Term, typ, name string) *Term {
	nt := w.P.namedType(pTypes, typ)
	return mkField(w.asOrder(el, typ), nt, fieldIdx(nt, name))
}

func callEvents(evs []*Event, name string) []*Event {
	var r []*Event
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == name {
			r = append(r, ev)
		}
	}
	return r
}

// matchOf is the matching step of a unit: whether orders matched, the price
// and the quote coin difference.
func matchOf(u *Unit) (ev *Event, matched, price, diff *Term) {
	evs := append(callEvents(u.Events, nMASP), callEvents(u.Events, "(*"+pAmm+".OrderBook).Match")...)
	if len(evs) != 1 {
		return nil, nil, nil, nil
	}
	ev = evs[0]
	if ev.Name == nMASP {
		return ev, proj(ev.Res, 1), ev.Args[1], proj(ev.Res, 0)
	}
	return ev, proj(ev.Res, 2), proj(ev.Res, 0), proj(ev.Res, 1)
}

func ruleP15(w *World, r *R) {
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis") {
		ev, matched, _, diff := matchOf(u)
		if ev == nil {
			continue
		}
		at := "ExecuteMatching"
		f, p := u.Facts, u.pos()
		switch {
		case f.has(Lit{matched, false}):
			bad := 0
			for _, e := range allEvents(after(u.Events, ev)) {
				if len(transfers([]*Event{e}))+len(writes([]*Event{e}, "Order")) > 0 {
					bad++
				}
			}
			r.ob("NOTHING-MATCHED", at, p, bad == 0, "coins move or orders change although nothing matched")
			continue
		case !f.has(Lit{matched, true}):
			r.ob("MATCH-KNOWN", at, p, false, "the result of matching is not looked at")
			continue
		}
		var lists []*Term
		for _, e := range callEvents(u.Events, "(*"+pAmm+".OrderBook).Orders") {
			if e.Args[0] == ev.Args[0] && e.Pos > 0 {
				lists = append(lists, e.Res)
			}
		}
		if !r.ob("ORDERS", at, p, len(lists) > 0, "the orders of the book are not settled") {
			continue
		}
		pws := writes(u.Events, "Pair")
		if !r.ob("PAIR", at, p, len(pws) == 1 && pws[0].Base != nil, "%d pair records are stored", len(pws)) {
			continue
		}
		pair := pws[0].Base
		escrow := addrOf(F(pair, "EscrowAddress"))
		w.settle(r, u, lists, pair, escrow, diff, at)
	}
	r.floor("POOL-PAYS", 1)
	r.floor("POOL-GETS", 1)
	r.floor("USER-GETS", 1)
	r.floor("USER-RECORD", 1)
	r.floor("USER-OPEN", 1)
	r.floor("DUST", 1)
	r.floor("NOTHING-MATCHED", 1)
	r.floor("QUEUE-RUN", 1)

	w.allOrders(r)
	w.bulkSend(r)
}

func after(evs []*Event, ev *Event) []*Event {
	for i, e := range evs {
		if e == ev {
			return evs[i+1:]
		}
	}
	return nil
}

// effects of settling one order
const (
	ePoolPays = iota
	ePoolGets
	eUserGets
	eUserRecord
	nEffects
)

var effectNames = []string{"POOL-PAYS", "POOL-GETS", "USER-GETS", "USER-RECORD"}

func (w *World) settle(r *R, u *Unit, lists []*Term, pair, escrow, diff *Term, at string) {
	f, p := u.Facts, u.pos()
	var total [nEffects]int
	var bad [nEffects]string
	covered := map[*Event]bool{}
	payPos, firstOut := -1, -1
	ops := map[*Term]bool{}
	for _, list := range lists {
		for _, s := range scans(u, u.Events, list) {
			covered[s.ev] = true
			var per [nEffects]int
			seen := [nEffects]bool{}
			for _, b := range s.bodies {
				bf, el := b.Facts, s.el
				var n [nEffects]int
				isPool, isUser := w.isOrderType(el, "PoolOrder"), w.isOrderType(el, "UserOrder")
				m := orderMatched(bf, el)
				r.ob("SETTLE-FLAT", at, b.pos(), len(innerEffects(b.Events)) == 0, "coins move in an inner loop")
				refunds := w.endRefunds(b)
				for _, t := range transfers(b.Events) {
					if t.Queued {
						ops[t.Ev.Args[0]] = true
					}
					if refunds[t.Ev] {
						firstOut = setFirst(firstOut, indexOf(u.Events, s.ev))
						continue
					}
					k := -1
					for _, c := range []struct {
						k             int
						typ           string
						is            Lit
						from, to      *Term
						denom, amount string
					}{
						{ePoolPays, "PoolOrder", isPool, w.orderFld(el, "PoolOrder", "ReserveAddress"), escrow, "OfferCoinDenom", "PaidOfferCoinAmount"},
						{ePoolGets, "PoolOrder", isPool, escrow, w.orderFld(el, "PoolOrder", "ReserveAddress"), "DemandCoinDenom", "ReceivedDemandCoinAmount"},
						{eUserGets, "UserOrder", isUser, escrow, w.orderFld(el, "UserOrder", "Orderer"), "DemandCoinDenom", "ReceivedDemandCoinAmount"},
					} {
						if t.From != c.from || t.To != c.to || t.Coins == nil || t.Coins.Op != "coins" || len(t.Coins.Args) != 1 || !bf.has(c.is) {
							continue
						}
						coin := t.Coins.Args[0]
						if bf.same(F(coin, "Denom"), w.orderFld(el, c.typ, c.denom)) && orderRead(F(coin, "Amount"), el, c.amount) {
							k = c.k
						}
					}
					if !r.ob("SETTLE-TRANSFER", at, t.Ev.Pos, k >= 0, "moves %s, which is not what the order matched", describe([]Transfer{t})) {
						continue
					}
					r.ob("SETTLE-MATCHED", at, t.Ev.Pos, m == 1, "an order is settled that may not have matched")
					n[k]++
					if k == ePoolPays {
						payPos = indexOf(u.Events, s.ev)
						if t.Queued {
							payPos = flushIndex(u.Events, t.Ev.Args[0])
						}
					} else {
						firstOut = setFirst(firstOut, indexOf(u.Events, s.ev))
					}
				}
				for _, x := range writes(b.Events, "Order") {
					n[eUserRecord]++
					w.settledOrder(r, b, el, x, pair, at)
					r.ob("SETTLE-MATCHED", at, x.Ev.Pos, m == 1 && bf.has(isUser), "an order record changes that may not have matched")
				}
				for k := 0; k < nEffects; k++ {
					is, other := isPool, isUser
					if k >= eUserGets {
						is, other = isUser, isPool
					}
					if m < 0 || bf.contra(is) || bf.has(other) {
						continue // this order is not concerned
					}
					if k == eUserRecord && w.endedBefore(bf, el, pair) {
						continue // cannot be: only live orders enter the book (P06)
					}
					switch {
					case !seen[k]:
						seen[k], per[k] = true, n[k]
					case per[k] != n[k]:
						bad[k] = "on some paths only"
					}
				}
			}
			for k := range per {
				total[k] += per[k]
				if per[k] > 0 {
					r.ob("SETTLE-ALL", at, s.ev.Pos, s.done(f), "settling stops before the last order")
				}
			}
		}
	}
	what := []string{"pools pay what their orders paid", "pools get what their orders received", "orderers get what their orders received", "order records are updated"}
	for k, n := range total {
		r.ob(effectNames[k], at, p, n == 1 && bad[k] == "", "%s %d times %s", what[k], n, bad[k])
	}
	r.ob("POOLS-PAY-FIRST", at, p, payPos >= 0 && (firstOut < 0 || payPos <= firstOut), "coins are paid out before the pools have paid in")
	// dust, and nothing else
	dust := 0
	for i, ev := range u.Events {
		if ev.Kind == "loop" && !covered[ev] {
			for _, e := range allEvents([]*Event{ev}) {
				if len(transfers([]*Event{e})) > 0 && i > indexOf(u.Events, firstMatch(u)) {
					r.ob("SETTLE-OTHER", at, e.Pos, false, "coins move outside the loops over the matched orders")
				}
			}
		}
	}
	for _, t := range transfers(u.Events) {
		ok := t.From == escrow && t.To == addrOf(param("DustCollectorAddress")) && t.Coins != nil && t.Coins.Op == "coins" && len(t.Coins.Args) == 1
		if ok {
			c := t.Coins.Args[0]
			ok = f.same(F(c, "Denom"), F(pair, "QuoteCoinDenom")) && f.same(F(c, "Amount"), diff)
		}
		if t.Queued {
			ops[t.Ev.Args[0]] = true
		}
		if r.ob("SETTLE-OTHER", at, t.Ev.Pos, ok, "moves %s", describe([]Transfer{t})) {
			dust++
		}
	}
	zero := f.has(eqL(diff, ci(0))) || f.has(geL(ci(0), diff, false))
	r.ob("DUST", at, p, dust == 1 || dust == 0 && zero, "the quote coin difference goes to the dust collector %d times", dust)
	// every queue is run once, after everything was put in
	for op := range ops {
		last, runs, at1 := -1, 0, -1
		var res *Term
		for i, ev := range u.Events {
			switch {
			case ev.Kind == "flush" && ev.Args[0] == op:
				runs++
				at1, res = i, ev.Res
			case ev.Kind == "queue" && ev.Args[0] == op:
				last = i
			case ev.Kind == "loop":
				for _, e := range allEvents([]*Event{ev}) {
					if e.Kind == "queue" && e.Args[0] == op {
						last = i
					}
					if e.Kind == "flush" && e.Args[0] == op {
						runs += 2
					}
				}
			}
		}
		r.ob("QUEUE-RUN", at, p, runs == 1 && at1 > last, "queued transfers are executed %d times, or before all are queued", runs)
		r.ob("QUEUE-ERROR", at, p, res != nil && f.has(isNilL(res)), "a failed transfer goes unnoticed")
	}
}

// endedBefore: the facts say the stored order had ended already.
func (w *World) endedBefore(f *Facts, el, pair *Term) bool {
	key := w.key("Order", F(pair, "Id"), w.orderFld(el, "UserOrder", "OrderId"))
	for a, v := range f.m {
		if !v || a.Op != "eq" {
			continue
		}
		for i, t := range a.Args {
			n, lit := t.intVal()
			if !lit || n.Int64() < stCompleted || n.Int64() > stExpired {
				continue
			}
			st := a.Args[1-i]
			if st.Op == "field" && st.Name == "Status" && st.containsTerm(key) {
				return true
			}
		}
	}
	return false
}

func firstMatch(u *Unit) *Event { ev, _, _, _ := matchOf(u); return ev }

func indexOf(evs []*Event, ev *Event) int {
	for i, e := range evs {
		if e == ev {
			return i
		}
	}
	return -1
}

func flushIndex(evs []*Event, op *Term) int {
	for i, e := range evs {
		if e.Kind == "flush" && e.Args[0] == op {
			return i
		}
	}
	return len(evs)
}

func setFirst(a, b int) int {
	if a < 0 || b < a {
		return b
	}
	return a
}

// innerEffects are coin movements in loops nested in a unit.
func innerEffects(evs []*Event) []*Event {
	var r []*Event
	for _, ev := range evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, e := range allEvents([]*Event{ev}) {
			if len(transfers([]*Event{e})) > 0 {
				r = append(r, e)
			}
		}
	}
	return r
}

// endRefunds are the transfers that return the remaining coin of an order
// that ends in this unit (P03 checks them).
func (w *World) endRefunds(u *Unit) map[*Event]bool {
	m := map[*Event]bool{}
	for _, x := range orderEnds(u.Events) {
		for _, t := range transfers(u.Events) {
			if x.Base != nil && t.Coins != nil && !t.Queued && t.To == addrOf(F(x.Base, "Orderer")) && u.Facts.sameDeep(t.Coins, coinsOf(F(x.Val, "RemainingOfferCoin"))) {
				m[t.Ev] = true
			}
		}
	}
	return m
}

// settledOrder: the stored order moves by exactly what its counterpart in the
// book matched, paid and received.
func (w *World) settledOrder(r *R, b *Unit, el *Term, x recWrite, pair *Term, at string) {
	f, p := b.Facts, x.Ev.Pos
	if !r.ob("USER-BASE", at, p, x.Base != nil, "the record written is not the stored order") {
		return
	}
	o, v := x.Base, x.Val
	r.ob("USER-KEY", at, p, f.same(F(v, "Id"), w.orderFld(el, "UserOrder", "OrderId")) && f.same(F(v, "PairId"), F(pair, "Id")), "order %v of pair %v is updated", F(v, "Id"), F(v, "PairId"))
	// open amount less (amount - open amount of the book order)
	d := linAdd(F(v, "OpenAmount"), F(o, "OpenAmount"), -1, nil)
	ok := false
	src := []*Term{d}
	for a, val := range f.m {
		if val && a.Op == "eq" {
			src = append(src, a)
		}
	}
	for _, s := range src {
		for _, am := range readsIn(s, el, "Amount") {
			for _, op := range readsIn(s, el, "OpenAmount") {
				ok = ok || linSame(f, d, linAdd(op, am, -1, nil))
			}
		}
	}
	r.ob("USER-OPEN", at, p, ok, "the open amount becomes %v", F(v, "OpenAmount"))
	diffIs := func(rule, coin, field string, sg int) {
		d := linAdd(F(v, coin, "Amount"), F(o, coin, "Amount"), -1, nil)
		if sg < 0 {
			d = linNeg(d, nil)
		}
		ok := orderRead(d, el, field)
		if !ok { // not paid or received, or known to be what is left
			for a, val := range f.m {
				if val && a.Op == "eq" {
					for _, t := range readsIn(a, el, field) {
						ok = ok || linSame(f, d, t)
					}
				}
			}
		}
		r.ob(rule, at, p, ok, "the %s of the order changes by %v", coin, d)
	}
	diffIs("USER-REMAINING", "RemainingOfferCoin", "PaidOfferCoinAmount", -1)
	diffIs("USER-RECEIVED", "ReceivedCoin", "ReceivedDemandCoinAmount", 1)
	open := F(v, "OpenAmount")
	st := F(v, "Status")
	okSt := f.same(st, ci(stCompleted)) && f.has(eqL(open, ci(0))) || f.same(st, ci(stPartial)) && f.has(neL(open, ci(0)))
	r.ob("USER-STATUS", at, p, okSt, "the order becomes %v whatever is left of it", st)
}

// allOrders: the order list of a book has every order of every tick of both sides.
func (w *World) allOrders(r *R) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "Orders"))
	at := "amm.OrderBook.Orders"
	r.ob("ALL-ORDERS", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		want := map[*Term]int{w.ticksOf(x.Args[0], "buys"): 0, w.ticksOf(x.Args[0], "sells"): 0}
		cur := u.Out.Vals[0]
		ok := true
		for i := len(u.Events) - 1; i >= 0 && ok; i-- {
			ev := u.Events[i]
			if ev.Kind != "loop" || ev.Mus[cur] == nil {
				continue
			}
			mi := ev.Mus[cur]
			s := w.anyScan(u, ev)
			if s == nil || !s.done(u.Facts) || len(mi.Backs) != len(s.bodies) {
				ok = false
				break
			}
			for _, b := range mi.Backs {
				ok = ok && b.Val != nil && b.Val.Op == "append" && b.Val.Name == "all" && len(b.Val.Args) == 2 && b.Val.Args[0] == cur && b.Val.Args[1] == w.tickFld(s.el, "orders")
			}
			for _, sg := range segments(s.list) {
				if _, is := want[sg.list]; is && sg.lo == ci(0) && sg.hi == nil {
					want[sg.list]++
				} else {
					ok = false
				}
			}
			cur = mi.Init
		}
		ok = ok && mkLen(cur) == ci(0)
		for _, n := range want {
			ok = ok && n == 1
		}
		r.ob("ALL-ORDERS", at, u.Out.Pos, ok, "orders of the book are left out or repeated")
	}
	r.floor("ALL-ORDERS", 1)
}

// anyScan recognises a scan over whatever list its iterations check against.
func (w *World) anyScan(u *Unit, ev *Event) *scan {
	if len(ev.Bodies) == 0 {
		return nil
	}
	seen := map[*Term]bool{}
	var cands []*Term
	for a, v := range ev.Bodies[0].Facts.m {
		if a.Op == "lt" && v {
			a.walk(func(t *Term) bool {
				if t.Op == "len" && !seen[t.Args[0]] {
					seen[t.Args[0]] = true
					cands = append(cands, t.Args[0])
				}
				return true
			})
		}
	}
	sortTerms(cands)
	for _, l := range cands {
		if s := scanOf(u, ev, l); s != nil {
			return s
		}
	}
	return nil
}

// bulkSend: a queue of transfers carries out exactly what was put in.
func (w *World) bulkSend(r *R) {
	q := w.run(w.P.fn(pTypes, "BulkSendCoinsOperation", "QueueSendCoins"))
	at := "types.BulkSendCoinsOperation.QueueSendCoins"
	r.ob("QUEUE", at, q.Fn.Pos(), q.Err == "" && len(q.rets()) > 0, "cannot analyse %s", q.Err)
	opT, txT := w.P.namedType(pTypes, "BulkSendCoinsOperation"), w.P.namedType(pTypes, "sendCoinsTx")
	if opT == nil || txT == nil {
		r.ob("QUEUE", at, q.Fn.Pos(), false, "types have disappeared")
		return
	}
	fld := func(t *Term, nt types.Type, n string) *Term {
		i := fieldIdx(nt, n)
		if t == nil || i < 0 {
			return ci(-1)
		}
		return mkField(t, nt, i)
	}
	adds := func(t, to, amt *Term) bool { // t is to plus amt
		if t == nil || t.Op != "call" || !strings.HasSuffix(t.Name, ".Add") || len(t.Args) != 2 || t.Args[1] != amt {
			return false
		}
		return t.Args[0] == to || to == nil && mkLen(t.Args[0]) == ci(0)
	}
	for _, o := range q.rets() {
		f := o.Facts()
		op, from, to, amt := q.Args[0], q.Args[1], q.Args[2], q.Args[3]
		before := mk("deref", "", opT, op)
		valid := Lit{callT("("+pSDK+".Coins).IsValid", amt), true}
		zero := Lit{callT("("+pSDK+".Coins).IsZero", amt), true}
		after := o.St.mem[op]
		if f.contra(valid) || f.has(zero) {
			r.ob("QUEUE-NOTHING", at, o.Pos, (after == nil || after == before) && len(o.Events()) == 0, "queues invalid or no coins")
			continue
		}
		if len(q.Args) != 4 {
			continue
		}
		ok := false
		// a transfer between the same accounts grows
		for _, k := range lookupsOfOp(f, "mapok") {
			if !f.has(Lit{k, true}) || !keyIs(k.Args[1], from, to) || k.Args[0] != fld(before, opT, "txSet") {
				continue
			}
			tx := mk("maplookup", k.Name, nil, k.Args...)
			cell := o.St.mem[tx]
			b := mk("deref", "", txT, tx)
			ok = ok || cell != nil && (after == nil || after == before) && fld(cell, txT, "from") == fld(b, txT, "from") && fld(cell, txT, "to") == fld(b, txT, "to") && adds(fld(cell, txT, "amt"), fld(b, txT, "amt"), amt)
		}
		// or a new one is put at the end
		if after != nil {
			el, _, ins := inserted(f, fld(before, opT, "txs"), fld(after, opT, "txs"))
			if ins {
				cell := o.St.mem[el]
				ok = ok || cell != nil && fld(cell, txT, "from") == from && fld(cell, txT, "to") == to && (adds(fld(cell, txT, "amt"), nil, amt) || fld(cell, txT, "amt") == amt)
				for _, e := range o.Events() {
					if e.Kind == "mapset" {
						ok = ok && keyIs(e.Args[1], from, to) && e.Args[2] == el && e.Args[0] == fld(before, opT, "txSet")
					}
				}
			}
		}
		r.ob("QUEUE-ADDS", at, o.Pos, ok, "does not add exactly the coins to the transfer between the two accounts")
	}
	r.floor("QUEUE-ADDS", 1)
	x := w.run(w.P.fn(pTypes, "BulkSendCoinsOperation", "Run"))
	at = "types.BulkSendCoinsOperation.Run"
	r.ob("RUN", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		txs := fld(mk("deref", "", opT, x.Args[0]), opT, "txs")
		if u.Out.Vals[0] != nilTerm && !u.Facts.has(isNilL(u.Out.Vals[0])) {
			r.ob("RUN-FAILS", at, u.Out.Pos, u.Facts.contra(isNilL(u.Out.Vals[0])), "may return an error although all transfers were made")
			continue
		}
		if u.Facts.has(eqL(mkLen(txs), ci(0))) {
			r.ob("RUN-NONE", at, u.Out.Pos, len(transfers(allEvents(u.Events))) == 0, "moves coins although nothing is queued")
			continue
		}
		ok := len(transfers(u.Events)) == 0
		n := 0
		for _, ev := range u.Events {
			if ev.Kind != "loop" {
				continue
			}
			n++
			s := scanOf(u, ev, txs)
			if s == nil || !s.done(u.Facts) {
				ok = false
				continue
			}
			for _, b := range s.bodies {
				ts := transfers(b.Events)
				tx := mk("deref", "", txT, s.el)
				ok = ok && len(ts) == 1 && ts[0].From == fld(tx, txT, "from") && ts[0].To == fld(tx, txT, "to") && ts[0].Coins == fld(tx, txT, "amt") && len(innerEffects(b.Events)) == 0
				for _, e := range b.Events {
					if e.Kind == "bank" {
						ok = ok && e.Res != nil && b.Facts.has(isNilL(e.Res))
					}
				}
			}
		}
		r.ob("RUN-ALL", at, u.Out.Pos, ok && n == 1, "does not make every queued transfer exactly once, in full and noticing errors")
	}
	r.floor("RUN-ALL", 1)
	c := w.run(w.P.fn(pTypes, "", "NewBulkSendCoinsOperation"))
	for _, o := range c.rets() {
		v := o.St.mem[o.Vals[0]]
		r.ob("QUEUE-EMPTY", "types.NewBulkSendCoinsOperation", o.Pos, v != nil && mkLen(fld(v, opT, "txs")) == ci(0), "a new queue is not empty: %v", v)
	}
}

func lookupsOfOp(f *Facts, op string) []*Term {
	var r []*Term
	for a := range f.m {
		if a.Op == op {
			r = append(r, a)
		}
	}
	sortTerms(r)
	return r
}

// keyIs: a map key made of exactly two addresses.
func keyIs(k, from, to *Term) bool {
	return k.Op == "struct" && len(k.Args) == 2 && isAddrStr(k.Args[0], from) && isAddrStr(k.Args[1], to)
}

func isAddrStr(t, a *Term) bool { return t.Op == "addrstr" && t.Args[0] == a }

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].ID < ts[j-1].ID; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func isNilL(t *Term) Lit { return Lit{mk("isnil", "", types.Typ[types.Bool], t), true} }
