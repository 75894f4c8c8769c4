package main

import "go/types"

// P21: batches.

const nNewBook = pAmm + ".NewOrderBook"

func (w *World) batchDue(f *Facts) (yes, no bool) {
	for a, v := range f.m {
		if a.Op != "eq" || len(a.Args) != 2 {
			continue
		}
		for i := range a.Args {
			m := a.Args[1-i]
			if a.Args[i] == ci(0) && m.Op == "bin" && m.Name == "%" && isBlockHeight(m.Args[0]) && w.isParam(m.Args[1], "BatchSize") {
				yes, no = yes || v, no || !v
			}
		}
	}
	return
}

func isBlockHeight(t *Term) bool {
	return t.Op == "call" && t.Name == "("+pSDK+".Context).BlockHeight"
}

// isParam: t is the value of a module parameter, however it was read.
func (w *World) isParam(t *Term, name string) bool {
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t == param(name) || t.Op == "field" && t.Name == name && t.Args[0].Op == "pset"
}

func ruleP21(w *World, r *R) {
	e := w.ByName["EndBlock"]
	recs := []string{"Pair", "Order", "DepositRequest", "WithdrawRequest"}
	for _, u := range w.Units(e) {
		if u.Loop != nil {
			continue
		}
		p := u.pos()
		yes, no := w.batchDue(u.Facts)
		if !r.ob("BATCH-DUE", "EndBlock", p, yes != no, "whether a batch ends does not depend on the block height and the batch size alone") {
			continue
		}
		if no {
			n := 0
			for _, ev := range allEvents(u.Events) {
				if ev.Kind != "call" && ev.Kind != "emit" {
					n++
				}
			}
			r.ob("BATCH-NOT-DUE", "EndBlock", p, n == 0, "state is touched between batches")
			continue
		}
		var at [4][]int
		for i, ev := range u.Events {
			if ev.Kind != "kviter" {
				continue
			}
			for k, rec := range recs {
				if w.prefixOf(ev.Args[0], rec, 0) {
					at[k] = append(at[k], i)
				}
			}
		}
		for k, rec := range recs {
			r.ob("BATCH-STEPS", "EndBlock", p, len(at[k]) == 1, "%s records are gone through %d times in a batch", rec, len(at[k]))
		}
		if len(at[0]) == 1 {
			for _, k := range []int{2, 3} {
				r.ob("BATCH-ORDER", "EndBlock", p, len(at[k]) == 1 && at[k][0] > at[0][0], "%ss execute before orders match", recs[k])
			}
		}
	}
	r.floor("BATCH-STEPS", 1)
	r.floor("BATCH-NOT-DUE", 1)
	r.ob("ALL-PAIRS", "EndBlock", e.Fn.Pos(), len(w.earlyExits(e, w.pfxIs("Pair", 0))) == 0, "matching may stop before the last pair")

	isPair := w.pfxIs("Pair", 0)
	for _, u := range w.Units(e) {
		its := newIters(u)
		if u.Loop == nil || len(its) != 1 || !isPair(its[0].Args[0]) {
			continue
		}
		w.pairBatch(r, u, w.elemOf(u, "Pair"))
	}
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis") {
		if ev := firstMatch(u); ev != nil {
			its := newIters(u)
			r.ob("MATCH-WHERE", u.where(), ev.Pos, u.Entry == e && u.Loop != nil && len(its) == 1 && isPair(its[0].Args[0]), "orders match outside the batch of a pair")
		}
	}
	r.floor("LAST-PRICE", 1)
	r.floor("BATCH-ID", 1)
	r.floor("FIRST-PRICE", 1)
	r.floor("POOL-VIEW", 1)
	r.floor("POOL-AT-PRICE", 1)
	r.floor("POOL-LIMITS", 1)
	r.floor("MATCH-AT", 1)
}

func (w *World) pairBatch(r *R, u *Unit, pair *Term) {
	f, p := u.Facts, u.pos()
	at := "ExecuteMatching"
	last := F(pair, "LastPrice")
	price := mk("deref", "", nil, last)
	ev, matched, mp, _ := matchOf(u)
	pws := writes(u.Events, "Pair")
	if !r.ob("PAIR-RECORD", at, p, len(pws) == 1 && pws[0].Base == pair, "the pair is stored %d times in its batch", len(pws)) {
		return
	}
	x := pws[0]
	r.ob("BATCH-ID", at, x.Ev.Pos, linAdd(F(x.Val, "CurrentBatchId"), F(pair, "CurrentBatchId"), -1, nil) == ci(1), "the batch id becomes %v", F(x.Val, "CurrentBatchId"))
	for _, n := range structFieldNames(w.typ("Pair")) {
		if n != "CurrentBatchId" && n != "LastPrice" {
			r.ob("PAIR-REST", at+" "+n, x.Ev.Pos, f.same(F(x.Val, n), F(pair, n)), "the pair's %s becomes %v", n, F(x.Val, n))
		}
	}
	got := F(x.Val, "LastPrice")
	val := got
	if len(x.Ev.Snap) == 1 && x.Ev.Snap[0].Op == "enc" {
		val = F(x.Ev.Snap[0].Args[0], "LastPrice")
	}
	isMatched := matched != nil && f.has(Lit{matched, true})
	if isMatched {
		r.ob("LAST-PRICE", at, x.Ev.Pos, val.Op == "ref" && f.same(val.Args[0], mp), "the last price becomes %v, not the match price", val)
		i, j := indexOf(u.Events, ev), indexOf(u.Events, x.Ev)
		r.ob("PAIR-RECORD", at, x.Ev.Pos, i >= 0 && j > i, "the pair is stored before matching")
	} else {
		same := f.same(got, last) || val.Op == "ref" && f.same(val.Args[0], price)
		r.ob("LAST-PRICE", at, x.Ev.Pos, same, "the last price becomes %v although nothing matched", val)
		r.ob("UNMATCHED", at, x.Ev.Pos, matched == nil || f.has(Lit{matched, false}), "orders matched but the last price stays")
	}
	// the book
	books := callEvents(u.Events, nNewBook)
	if !r.ob("ONE-BOOK", at, p, len(books) == 1 && len(books[0].Args) == 1 && mkLen(books[0].Args[0]) == ci(0), "%d order books", len(books)) {
		return
	}
	ob := books[0].Res
	tp := param("TickPrecision")
	var poolLists []*Term
	var loops []*Event
	for _, l := range u.Events {
		if l.Kind != "loop" {
			continue
		}
		if s := w.anyScan(u, l); s != nil && s.list.Op == "mu" {
			poolLists = append(poolLists, s.list)
		}
		loops = append(loops, l)
	}
	isAdd := func(e *Event) bool {
		return e.Kind == "call" && e.Name == "(*"+pAmm+".OrderBook).AddOrder"
	}
	for _, e := range allEvents(u.Events) {
		if isAdd(e) {
			r.ob("ONE-BOOK", at, e.Pos, e.Args[0] == ob, "an order is added to another book")
		}
	}
	if ev != nil {
		r.ob("ONE-BOOK", at, ev.Pos, ev.Args[0] == ob, "another book is matched")
		i := indexOf(u.Events, ev)
		for _, e := range u.Events[i:] {
			for _, b := range allEvents([]*Event{e}) {
				r.ob("ADDED-BEFORE", at, b.Pos, !isAdd(b), "orders are added after matching")
			}
		}
	}
	poolT := w.P.namedType(pTypes, "PoolOrderer")
	poolIface := func(el *Term) *Term {
		return mk("iface", typeName(types.NewPointer(poolT)), nil, el)
	}
	isPoolVal := func(t, el *Term) bool { // the pool, or the amm pool inside it
		if t.Op == "iface" && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return t == el || t.Op == "field" && t.Name == "Pool" && (t.Args[0] == el || t.Args[0].Op == "deref" && t.Args[0].Args[0] == el)
	}
	_ = poolIface
	switch {
	case f.has(eqL(last, nilTerm)):
		// a first price is looked for among the orders and all pools
		var views []*Term
		found, any := false, false
		for a, v := range f.m {
			if a.Op == "res" && a.Name == "1" && a.Args[0].Op == "call" && a.Args[0].Name == pAmm+".FindMatchPrice" {
				c := a.Args[0]
				any, found = true, v
				views = append(views, c.Args[0])
				r.ob("FIRST-PRICE", at, p, w.isParam(c.Args[1], "TickPrecision"), "the tick precision is %v", c.Args[1])
				if v && ev != nil {
					r.ob("MATCH-AT", at, ev.Pos, ev.Name == nMASP && ev.Args[1] == proj(c, 0), "matches at %v", ev.Args[1])
				}
			}
		}
		if !r.ob("FIRST-PRICE", at, p, any && len(views) == 1, "no first price is looked for") {
			return
		}
		r.ob("MATCH-ONCE", at, p, found == (ev != nil), "matching does not depend on whether a price was found")
		r.ob("POOL-VIEW", at, p, w.viewOf(u, views[0], ob, isPoolVal), "the price is looked for in %v", views[0])
		if !found {
			return
		}
		fp := ev.Args[1]
		// every pool puts in what it has at that price
		n := 0
		for _, l := range loops {
			s := w.anyScan(u, l)
			adds := 0
			for _, e := range allEvents([]*Event{l}) {
				if isAdd(e) {
					adds++
				}
			}
			if adds == 0 || s == nil || s.list.Op != "mu" {
				r.ob("POOL-ADDS", at, l.Pos, adds == 0 || s == nil && w.isOrderScan(l), "orders are added in another loop")
				continue
			}
			n++
			r.ob("POOL-ADDS", at, l.Pos, s.done(f), "pools may be left out")
			for _, b := range s.bodies {
				for _, sd := range []struct {
					dir  int
					meth string
				}{{1, "BuyAmountOver"}, {2, "SellAmountUnder"}} {
					var amt *Term
					for _, e := range b.Events {
						if e.Kind == "invoke" && hasSuffix(e.Name, "."+sd.meth) && isPoolVal(e.Args[0], s.el) && e.Args[1] == fp && e.Args[2] == constBool(true) {
							amt = e.Res
						}
					}
					if !r.ob("POOL-AT-PRICE", at, l.Pos, amt != nil, "a pool is not asked for its amount (%s)", sd.meth) {
						continue
					}
					put := 0
					for _, e := range b.Events {
						if !isAdd(e) {
							continue
						}
						for _, o := range bookEntries(e) {
							if base := baseOrderOf(o); base != nil && F(base, "Direction") == ci(sd.dir) {
								put++
								r.ob("POOL-AT-PRICE", at, e.Pos, F(base, "Price") == fp && b.Facts.same(F(base, "Amount"), amt), "a pool orders %v at %v", F(base, "Amount"), F(base, "Price"))
								r.ob("POOL-OWN", at, e.Pos, o.containsTerm(s.el), "a pool's order belongs to another pool")
							}
						}
					}
					pos := b.Facts.has(ltL(ci(0), amt, false))
					none := b.Facts.has(geL(ci(0), amt, false))
					r.ob("POOL-AT-PRICE", at, l.Pos, put == 1 && pos || put == 0 && none, "a pool puts in %d orders (%s)", put, sd.meth)
				}
				k := 0
				for _, e := range b.Events {
					if isAdd(e) {
						for _, o := range bookEntries(e) {
							if base := baseOrderOf(o); base == nil || F(base, "Direction") != ci(1) && F(base, "Direction") != ci(2) {
								k++
							}
						}
					}
				}
				r.ob("POOL-OWN", at, l.Pos, k == 0, "other orders are put in")
			}
		}
		r.ob("POOL-ADDS", at, p, n == 1, "pools put in their orders %d times", n)
	case f.has(neL(last, nilTerm)):
		r.ob("MATCH-AT", at, p, ev != nil && ev.Name != nMASP && f.same(ev.Args[1], price), "does not match from the pair's last price")
		ratio := param("MaxPriceLimitRatio")
		lo := callT(pAmm+".PriceToUpTick", decMul(price, linAdd(constInt(1), ratio, -1, nil)), tp)
		hi := callT(pAmm+".PriceToDownTick", decMul(price, linAdd(constInt(1), ratio, 1, nil)), tp)
		n := 0
		for _, l := range loops {
			s := w.anyScan(u, l)
			var adds []*Event
			for _, e := range allEvents([]*Event{l}) {
				if isAdd(e) {
					adds = append(adds, e)
				}
			}
			if len(adds) == 0 || s == nil || s.list.Op != "mu" {
				r.ob("POOL-ADDS", at, l.Pos, len(adds) == 0 || s == nil && w.isOrderScan(l), "orders are added in another loop")
				continue
			}
			n++
			r.ob("POOL-ADDS", at, l.Pos, s.done(f), "pools may be left out")
			for _, b := range s.bodies {
				as := 0
				for _, e := range b.Events {
					if !isAdd(e) {
						continue
					}
					as++
					t := e.Args[1]
					ok := t.Op == "call" && t.Name == pAmm+".PoolOrders" && len(t.Args) == 5 && isPoolVal(t.Args[0], s.el) && isPoolVal(t.Args[1], s.el) && w.isParam(t.Args[4], "TickPrecision")
					if r.ob("POOL-OWN", at, e.Pos, ok, "puts in %v", t) {
						r.ob("POOL-LIMITS", at, e.Pos, t.Args[2] == lo && t.Args[3] == hi, "pools order between %v and %v", t.Args[2], t.Args[3])
					}
				}
				r.ob("POOL-ADDS", at, l.Pos, as == 1, "a pool puts in its orders %d times", as)
			}
		}
		r.ob("POOL-ADDS", at, p, n == 1, "pools put in their orders %d times", n)
	default:
		r.ob("LAST-PRICE-KNOWN", at, p, false, "matching does not depend on whether the pair has a last price")
	}
}

// isOrderScan: the loop goes through stored orders.
func (w *World) isOrderScan(l *Event) bool {
	isOrder := w.pfxIs("Order", 1)
	for _, b := range l.Bodies {
		for a, v := range b.Facts.m {
			if v && a.Op == "itervalid" && isOrder(a.Args[0].Args[0]) {
				return true
			}
		}
	}
	return false
}

// bookEntries are the orders an AddOrder call puts in, as written out.
func bookEntries(e *Event) []*Term {
	t := e.Args[1]
	if len(e.Snap) > 1 {
		t = e.Snap[1]
	}
	if t.Op == "list" {
		return t.Args
	}
	return []*Term{t}
}

// baseOrderOf finds the base part of an order that is written out.
func baseOrderOf(o *Term) *Term {
	var b *Term
	o.walk(func(t *Term) bool {
		if b == nil && t.Op == "struct" && t.Typ != nil && typeName(t.Typ) == pAmm+".BaseOrder" {
			b = t
		}
		return b == nil
	})
	return b
}

// viewOf: a view of the book and of every pool in the list.
func (w *World) viewOf(u *Unit, v, ob *Term, isPool func(t, el *Term) bool) bool {
	if v.Op == "iface" && len(v.Args) == 1 {
		v = v.Args[0]
	}
	n, bookSeen := 0, 0
	isBook := func(t *Term) bool {
		if t.Op == "iface" && len(t.Args) == 1 {
			t = t.Args[0]
		}
		for _, e := range callEvents(u.Events, "(*"+pAmm+".OrderBook).MakeView") {
			if e.Args[0] == ob && e.Res == t {
				return true
			}
		}
		return false
	}
	for i := 0; i < 6; i++ {
		ev := muLoop(u, v)
		if ev == nil {
			break
		}
		s := w.anyScan(u, ev)
		if s == nil || s.list.Op != "mu" || !s.done(u.Facts) {
			return false
		}
		for _, b := range ev.Mus[v].Backs {
			if b.Val == nil || b.Val.Op != "append" || b.Val.Name == "all" || len(b.Val.Args) != 2 || b.Val.Args[0] != v || !isPool(b.Val.Args[1], s.el) {
				return false
			}
		}
		n++
		v = ev.Mus[v].Init
	}
	for _, sg := range segments(v) {
		if sg.el == nil || !isBook(sg.el) {
			return false
		}
		bookSeen++
	}
	return n == 1 && bookSeen == 1
}
