package main

import (
	"go/token"
	"strings"
)

// The amounts matched on both sides of the book, and the quote coins moved.

const (
	nTMA  = pAmm + ".TotalMatchableAmount"
	nMA   = pAmm + ".MatchableAmount"
	nFulA = pAmm + ".FulfillOrders"
	nTick = pAmm + ".DistributeOrderAmountToTick"
	nOrds = pAmm + ".DistributeOrderAmountToOrders"
	nFill = pAmm + ".FillOrder"
	nFind = "(*" + pAmm + ".OrderBook).FindMatchableAmountAtSinglePrice"
	nMASP = "(*" + pAmm + ".OrderBook).MatchAtSinglePrice"
	nDir  = "(*" + pAmm + ".OrderBook).PriceDirection"
)

// baseAmt: the order amount an event matches.
func baseAmt(ev *Event) *Term {
	if ev.Kind != "call" {
		return nil
	}
	switch ev.Name {
	case nFulA:
		return callT(nTMA+ev.Ver, ev.Args[0], ev.Args[1])
	case nTick, nOrds:
		return proj(ev.Res, 1)
	}
	return nil
}

// quoteDiff: the quote coins an event collects from buyers less those it pays sellers.
func quoteDiff(ev *Event) *Term {
	if ev.Kind != "call" {
		return nil
	}
	switch ev.Name {
	case nFulA, nFill:
		return ev.Res
	case nTick, nOrds:
		return proj(ev.Res, 0)
	}
	return nil
}

func (w *World) derefAs(t *Term, typ string) *Term {
	return mk("deref", "", w.P.namedType(pAmm, typ), t)
}

func (w *World) fld(t *Term, typ, name string) *Term {
	if t == nil {
		return nil
	}
	nt := w.P.namedType(pAmm, typ)
	return mkField(t, nt, fieldIdx(nt, name))
}

// ticksOf are the ticks of a side of an order book.
func (w *World) ticksOf(ob *Term, side string) *Term {
	s := w.fld(w.derefAs(ob, "OrderBook"), "OrderBook", side)
	return w.fld(w.derefAs(s, "orderBookTicks"), "orderBookTicks", "ticks")
}

func (w *World) tickFld(el *Term, name string) *Term {
	return w.fld(w.derefAs(el, "orderBookTick"), "orderBookTick", name)
}

// distribution: an amount is handed out along a list: whole entries while they
// fit, at most one entry in part, to the end of the amount or of the list.
type distribution struct {
	list, amt, price *Term
	orders           func(el *Term) *Term // the orders of an entry
	part             string               // the call that serves an entry in part
	partArg          func(el *Term) *Term
}

func (d *distribution) mine(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == nFulA || ev.Name == d.part) && len(ev.Args) > 0 &&
		ev.Args[0].contains(func(t *Term) bool { return t.Op == "elem" && t.Args[0] == d.list })
}

func (d *distribution) amountOf(ev *Event) *Term {
	if !d.mine(ev) {
		return nil
	}
	return baseAmt(ev)
}

func (d *distribution) diffOf(ev *Event) *Term {
	if !d.mine(ev) {
		return nil
	}
	return quoteDiff(ev)
}

func combine(a, b []*Term) []*Term {
	var r []*Term
	for _, x := range a {
		for _, y := range b {
			r = append(r, linAdd(x, y, 1, nil))
		}
	}
	return r
}

// totals are the reads of the amount some orders can match.
func totals(f *Facts, orders, price *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for a := range f.m {
		a.walk(func(t *Term) bool {
			if t.Op == "call" && strings.HasPrefix(t.Name, nTMA) && len(t.Args) == 2 && t.Args[0] == orders && t.Args[1] == price && !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
			return true
		})
	}
	return r
}

func (r *R) distribute(rule, at string, u *Unit, d *distribution) {
	p := u.Out.Pos
	sofar := []*Term{ci(0)}
	var s *scan
	partial := false
	whole := func(ev *Event, el *Term, sofar []*Term) {
		o := d.orders(el)
		r.ob(rule+"-TARGET", at, ev.Pos, ev.Args[0] == o && ev.Args[1] == d.price, "orders %v are filled at %v", ev.Args[0], ev.Args[1])
		ts := totals(ev.Facts, o, d.price)
		ok := false
		for _, x := range sofar {
			rem := linAdd(d.amt, x, -1, nil)
			for _, t := range ts {
				ok = ok || leq(ev.Facts, t, rem)
			}
		}
		r.ob(rule+"-FITS", at, ev.Pos, ok, "all orders of an entry are filled without checking that they fit the amount left")
	}
	for _, ev := range u.Events {
		if ev.Kind == "loop" {
			n := 0
			for _, b := range ev.Bodies {
				for _, e := range b.Events {
					if d.mine(e) {
						n++
					}
				}
			}
			sc := scanOf(u, ev, d.list)
			if sc == nil {
				r.ob(rule+"-ORDERLY", at, ev.Pos, n == 0, "entries are not served one after another from the first on")
				continue
			}
			if n == 0 {
				continue
			}
			r.ob(rule+"-ONCE", at, ev.Pos, s == nil, "the entries are served more than once")
			s = sc
			alts := loopSums(ev, d.amountOf)
			now := combine(sofar, alts)
			for _, b := range sc.bodies {
				var es []*Event
				for _, e := range b.Events {
					if d.mine(e) {
						es = append(es, e)
					} else if e.Kind == "loop" || fillEvent(e) {
						r.ob(rule+"-NOTHING-ELSE", at, e.Pos, false, "other orders are filled in between")
					}
				}
				if len(es) == 0 {
					o := d.orders(sc.el)
					ok := false
					for a, v := range b.Facts.m {
						a.walk(func(t *Term) bool {
							if t.Op == "call" && strings.HasPrefix(t.Name, nTMA) && t.Args[0] == o && t.Args[1] == d.price {
								ok = ok || b.Facts.has(eqL(t, ci(0))) || b.Facts.has(geL(ci(0), t, false))
							}
							return true
						})
						_ = v
					}
					r.ob(rule+"-SKIP", at, ev.Pos, ok, "an entry with something to match is passed over")
					continue
				}
				if r.ob(rule+"-ONCE", at, es[0].Pos, len(es) == 1 && es[0].Name == nFulA, "an entry is served %d times, or in part without stopping", len(es)) {
					whole(es[0], sc.el, now)
				}
			}
			sofar = now
			if len(sofar) == 0 {
				r.ob(rule+"-COUNTED", at, ev.Pos, false, "no count of the amount handed out is kept")
				return
			}
			continue
		}
		if !d.mine(ev) {
			continue
		}
		if !r.ob(rule+"-ORDERLY", at, ev.Pos, s != nil && !partial, "an entry is served out of turn") {
			continue
		}
		if ev.Name == nFulA {
			whole(ev, s.el, sofar)
			sofar = combine(sofar, []*Term{baseAmt(ev)})
			continue
		}
		partial = true
		o := d.orders(s.el)
		ts := totals(ev.Facts, o, d.price)
		okAmt, okLess := false, false
		for _, x := range sofar {
			rem := linAdd(d.amt, x, -1, nil)
			if linSame(ev.Facts, ev.Args[1], rem) {
				okAmt = true
				for _, t := range ts {
					okLess = okLess || leq(ev.Facts, rem, t)
				}
			}
		}
		r.ob(rule+"-PART", at, ev.Pos, ev.Args[0] == d.partArg(s.el) && ev.Args[2] == d.price, "an entry is served in part by %v at %v", ev.Args[0], ev.Args[2])
		r.ob(rule+"-PART-AMOUNT", at, ev.Pos, okAmt, "an entry is served %v, not the amount left", ev.Args[1])
		r.ob(rule+"-PART-LESS", at, ev.Pos, okLess, "an entry may be asked for more than it has")
	}
	if s == nil { // the loop was left in its first iteration, or not entered
		r.ob(rule+"-ORDERLY", at, p, false, "nothing is handed out along the list")
		return
	}
	stop := partial || s.done(u.Facts)
	for _, x := range sofar {
		stop = stop || linSame(u.Facts, x, d.amt) || u.Facts.has(geL(x, d.amt, false))
	}
	r.ob(rule+"-STOP", at, p, stop, "handing out stops before the amount or the list ends")
}

// P18: both sides match the same amount, and every quote coin is accounted for.
func ruleP18(w *World, r *R) {
	r.ordersRule(w)
	r.tickRule(w)
	r.singlePriceRule(w)
	r.findRule(w)
	r.matchRule(w)
}

func (r *R) tickRule(w *World) {
	x := w.run(w.P.fn(pAmm, "", "DistributeOrderAmountToTick"), "!"+nFulA, "!"+nOrds, nTMA, pAmm+".GroupOrdersByBatchId", pAmm+".SortOrders")
	at := "amm.DistributeOrderAmountToTick"
	r.ob("TICK", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	grpT := w.P.namedType(pAmm, "OrderGroup")
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		tick, amt, price := x.Args[0], x.Args[1], x.Args[2]
		groups := callT(pAmm+".GroupOrdersByBatchId", w.tickFld(tick, "orders"))
		ordersOf := func(el *Term) *Term { return mkField(mk("deref", "", grpT, el), grpT, fieldIdx(grpT, "Orders")) }
		d := &distribution{list: groups, amt: amt, price: price, orders: ordersOf, part: nOrds, partArg: ordersOf}
		r.distribute("TICK", at, u, d)
		if r.ob("TICK-RESULTS", at, u.Out.Pos, len(u.Out.Vals) == 2, "no count of the distributed amount is returned") {
			r.ob("TICK-AMOUNT", at, u.Out.Pos, sumIs(u.Facts, u.Events, baseAmt, u.Out.Vals[1]), "the distributed amount returned is not what the orders matched")
			r.ob("TICK-DIFF", at, u.Out.Pos, sumIs(u.Facts, u.Events, quoteDiff, u.Out.Vals[0]), "the quote coin difference returned is not the sum over the fills")
		}
	}
	r.floor("TICK-AMOUNT", 1)
	r.floor("TICK-PART-AMOUNT", 1)
	r.floor("TICK-FITS", 1)
}

// lookupsOf are the map lookups of a key in the facts.
func lookupsOf(f *Facts, op string, key *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for a := range f.m {
		a.walk(func(t *Term) bool {
			if t.Op == op && len(t.Args) == 2 && t.Args[1] == key && !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
			return true
		})
	}
	return r
}

func (r *R) ordersRule(w *World) {
	at := "amm.DistributeOrderAmountToOrders"
	x := w.run(w.P.fn(pAmm, "", "DistributeOrderAmountToOrders"), nMA, pAmm+".TotalAmount", "!"+nFill)
	r.ob("ORDERS", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	orders, amt, price := x.Args[0], x.Args[1], x.Args[2]

	// worth: the facts say the sell order amount l is (1) or is not (-1) worth a coin
	worth := func(f *Facts, l *Term) int {
		rd := newRounder(f)
		for a, v := range f.m {
			if a.Op != "lt" && a.Op != "eq" || len(a.Args) != 2 {
				continue
			}
			for i, t := range a.Args {
				if a.Args[1-i] != ci(0) || t == l {
					continue
				}
				q := rd.eval(t)
				if !q.integer || len(q.set) != 1 || !q.has(polyAtom(price).mul(polyAtom(l))) || q.dir != dDown {
					continue
				}
				pos := v
				if a.Op == "eq" {
					pos = !v
				}
				if pos {
					return 1
				}
				return -1
			}
		}
		return 0
	}
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		f, p := u.Facts, u.Out.Pos
		if !r.ob("ORDERS-RESULTS", at, p, len(u.Out.Vals) == 2, "no count of the distributed amount is returned") {
			continue
		}
		rec := opaqueCalls(u.Events, "DistributeOrderAmountToOrders")
		fills := 0
		for _, ev := range allEvents(u.Events) {
			if ev.Kind == "call" && ev.Name == nFill {
				fills++
			}
		}
		// the loop that tells orders that get something from those that do not
		type split struct {
			s     *scan
			m     *Term // the list of those that got something
			count *Term // how many got nothing
		}
		var sp *split
		for _, s := range scans(u, u.Events, orders) {
			var lists, counts []*Term
			for _, m := range sortedMus(s.ev) {
				mi := s.ev.Mus[m]
				if mi.Init == ci(0) && len(mi.Backs) > 0 {
					ok := true
					for _, b := range mi.Backs {
						ok = ok && b.Val != nil && (b.Val == m || b.Val == linAdd(m, ci(1), 1, b.Val.Typ))
					}
					if ok {
						counts = append(counts, m)
					}
					continue
				}
				if mi.Init == nil || mi.Init.Op != "nil" && mi.Init.Op != "zero" && mkLen(mi.Init) != ci(0) {
					continue
				}
				ok := len(mi.Backs) > 0
				for _, b := range mi.Backs {
					ok = ok && b.Val != nil && (b.Val == m || b.Val.Op == "append" && len(b.Val.Args) == 2 && b.Val.Args[0] == m && b.Val.Args[1] == s.el && b.Val.Name == "")
				}
				if ok {
					lists = append(lists, m)
				}
			}
			if len(lists) == 0 || !s.done(f) {
				continue
			}
			// classify: every body appends to one list, or counts in the other way
			try := func(m, n *Term) bool {
				for i, b := range s.bodies {
					toM := s.ev.Mus[m].Backs[i].Val != m
					toN := !toM
					if n != nil {
						toN = s.ev.Mus[n].Backs[i].Val != n
					}
					if toM == toN {
						return false
					}
					ls := lookupsOf(b.Facts, "maplookup", s.el)
					got := 0
					for _, l := range ls {
						switch {
						case b.Facts.has(eqL(l, ci(0))):
							got = -1
						case b.Facts.has(neL(l, ci(0))):
							got = 1
							sd := side(b.Facts, s.el)
							wv := worth(b.Facts, l)
							if b.Facts.has(neL(getOf(s.el, "Direction"), ci(1))) {
								sd = 2
							}
							if sd != 1 {
								got = wv
							}
						}
					}
					if len(ls) == 0 {
						for _, k := range lookupsOf(b.Facts, "mapok", s.el) {
							if b.Facts.has(Lit{k, false}) {
								got = -1
							}
						}
					}
					if toM && got != 1 || toN && got != -1 {
						return false
					}
				}
				return true
			}
			for _, m := range lists {
				for _, n := range lists {
					if n != m && try(m, n) {
						sp = &split{s, m, mkLen(n)}
					}
				}
				for _, n := range counts {
					if try(m, n) {
						sp = &split{s, m, n}
					}
				}
				if sp == nil && try(m, nil) {
					sp = &split{s, m, linAdd(mkLen(orders), mkLen(m), -1, nil)}
				}
			}
		}
		if !r.ob("ORDERS-SPLIT", at, p, sp != nil, "orders that get something are not told apart from those that get nothing, or nothing of worth") {
			continue
		}
		if len(rec) > 0 {
			ev := rec[0]
			r.ob("AGAIN-NO-FILL", at, ev.Pos, fills == 0 && len(rec) == 1, "orders are filled before distributing again")
			r.ob("AGAIN-SAME", at, ev.Pos, f.same(ev.Args[1], amt) && ev.Args[2] == price, "distributes %v at %v again", ev.Args[1], ev.Args[2])
			r.ob("AGAIN-PROGRESS", at, ev.Pos, f.has(neL(sp.count, ci(0))) || f.has(ltL(ci(0), sp.count, false)) || f.has(ltL(ci(0), sp.count, true)), "distributing again may not end")
			ok := ev.Args[0] == sp.m && f.has(neL(mkLen(sp.m), ci(0)))
			if sg := segments(ev.Args[0]); len(sg) == 1 && sg[0].list == orders && sg[0].hi != nil {
				ok = linSame(f, sg[0].hi, linAdd(mkLen(orders), ci(1), -1, nil)) && sg[0].lo == ci(0) && f.has(eqL(mkLen(sp.m), ci(0)))
			}
			r.ob("AGAIN-ORDERS", at, ev.Pos, ok, "distributes again to %v", ev.Args[0])
			r.ob("AGAIN-RESULT", at, p, u.Out.Vals[0] == proj(ev.Res, 0) && u.Out.Vals[1] == proj(ev.Res, 1), "the result of distributing again is not returned")
			continue
		}
		r.ob("ORDERS-WORTH", at, p, f.has(eqL(sp.count, ci(0))) || f.has(geL(ci(0), sp.count, false)) || f.has(geL(ci(0), sp.count, true)), "orders are filled although some would get nothing for it")
		// amounts decided per order
		sums := []*Term{ci(0)}
		var m *Term
		greedyDone := false
		for _, ev := range u.Events {
			if ev.Kind == "mapset" {
				r.ob("ORDERS-AMOUNTS", at, ev.Pos, false, "an amount is set outside the loops over the orders")
			}
			if ev.Kind != "loop" {
				continue
			}
			n := 0
			for _, b := range ev.Bodies {
				for _, e := range b.Events {
					if e.Kind == "mapset" {
						n++
					}
				}
			}
			if n == 0 {
				continue
			}
			s := scanOf(u, ev, orders)
			if !r.ob("ORDERS-AMOUNTS", at, ev.Pos, s != nil, "amounts are set outside a loop over the orders") {
				continue
			}
			first := m == nil
			contrib := map[*Event]*Term{}
			for _, b := range s.bodies {
				for _, e := range b.Events {
					if e.Kind != "mapset" {
						continue
					}
					if m == nil {
						m = e.Args[0]
					}
					ok := e.Args[0] == m && e.Args[1] == s.el
					var old *Term
					if first {
						old = ci(0)
					}
					for _, k := range lookupsOf(e.Facts, "mapok", s.el) {
						if k.Args[0] != m {
							continue
						}
						if e.Facts.has(Lit{k, false}) {
							old = ci(0)
						} else if e.Facts.has(Lit{k, true}) {
							old = mk("maplookup", k.Name, nil, k.Args...)
						}
					}
					if !r.ob("ORDERS-AMOUNT-OF", at, e.Pos, ok && old != nil, "the amount of %v is set to %v, whatever it was before", e.Args[1], e.Args[2]) {
						continue
					}
					c := linAdd(e.Args[2], old, -1, nil)
					contrib[e] = c
					r.ob("ORDERS-BOUND", at, e.Pos, leq(e.Facts, c, linAdd(callT(nMA, s.el, price), old, -1, nil)), "an order may be filled by %v, more than it can give", e.Args[2])
				}
			}
			of := func(e *Event) *Term { return contrib[e] }
			now := combine(sums, loopSums(ev, of))
			greedy := true
			for _, b := range s.bodies {
				got := false
				for _, e := range b.Events {
					c := contrib[e]
					if c == nil {
						continue
					}
					got = true
					isGreedy := false
					for _, sum := range now {
						for _, l := range minLeaves(c) {
							isGreedy = isGreedy || linSame(e.Facts, l, linAdd(amt, sum, -1, nil)) && len(minLeaves(c)) == 2
						}
					}
					if isGreedy {
						continue
					}
					greedy = false
					share := false
					tot := callT(pAmm+".TotalAmount", orders)
					want := polyAtom(getOf(s.el, "Amount")).mul(polyAtom(amt)).mul(polyAtom(tot).inv())
					for _, l := range append(minLeaves(c), notBelow(e.Facts, c)...) {
						v := newRounder(e.Facts).eval(l)
						share = share || v.has(want) && v.integer && v.dir == dDown
					}
					r.ob("ORDERS-SHARE", at, e.Pos, share, "an order gets %v, which may be more than its share", c)
				}
				greedy = greedy && got
			}
			if greedy && s.done(f) {
				greedyDone = true
			}
			sums = now
		}
		okSum, all := false, false
		for _, s := range sums {
			okSum = okSum || linSame(f, s, u.Out.Vals[1])
			all = all || linSame(f, s, amt)
		}
		r.ob("ORDERS-AMOUNT", at, p, okSum, "the distributed amount returned is %v, not the sum over the orders", u.Out.Vals[1])
		r.ob("ORDERS-ALL", at, p, all || greedyDone, "an amount the orders could take is left over")
		// the fills are what was decided
		ok := false
		for _, ev := range u.Events {
			if ev.Kind != "loop" || len(ev.Bodies) == 0 {
				continue
			}
			good := true
			for _, b := range ev.Bodies {
				var es []*Event
				for _, e := range b.Events {
					if e.Kind == "call" && e.Name == nFill {
						es = append(es, e)
					}
				}
				if len(es) == 0 { // an order without an amount
					s := scanOf(u, ev, orders)
					skip := false
					if s != nil {
						for _, k := range lookupsOf(b.Facts, "mapok", s.el) {
							skip = skip || b.Facts.has(Lit{k, false})
						}
					}
					good = good && skip
					continue
				}
				e := es[0]
				k, a := e.Args[0], e.Args[1]
				fine := len(es) == 1 && e.Args[2] == price && a.Op == "maplookup" && a.Args[0] == m && a.Args[1] == k
				if k.Op == "rngkey" {
					fine = fine && k.Args[0] == m && f.has(Lit{mk("rngok", k.Name, nil, m), false})
				} else if s := scanOf(u, ev, orders); s == nil || k != s.el || !s.done(f) {
					fine = false
				}
				for _, l := range lookupsOf(sp.s.bodies[0].Facts, "maplookup", sp.s.el) {
					fine = fine && l.Name == a.Name
				}
				good = good && fine
			}
			hasFill := false
			for _, b := range ev.Bodies {
				for _, e := range b.Events {
					hasFill = hasFill || e.Kind == "call" && e.Name == nFill
				}
			}
			if hasFill {
				r.ob("ORDERS-FILLED", at, ev.Pos, good && !ok, "the fills are not the amounts decided")
				ok = true
			}
		}
		r.ob("ORDERS-FILLED", at, p, ok, "nothing is filled")
		r.ob("ORDERS-DIFF", at, p, sumIs(f, u.Events, quoteDiff, u.Out.Vals[0]), "the quote coin difference is not the sum over the fills")
	}
	r.floor("ORDERS-AMOUNT", 1)
	r.floor("ORDERS-BOUND", 1)
	r.floor("ORDERS-SHARE", 1)
	r.floor("AGAIN-ORDERS", 1)
}

func (r *R) singlePriceRule(w *World) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "MatchAtSinglePrice"), "!"+nFulA, "!"+nTick, nTMA, nFind)
	at := "amm.MatchAtSinglePrice"
	r.ob("SINGLE", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		p := u.Out.Pos
		ob, price := x.Args[0], x.Args[1]
		fc := callT(nFind, ob, price)
		amt, found := proj(fc, 0), Lit{proj(fc, 1), true}
		switch {
		case u.Facts.contra(found):
			r.ob("SINGLE-NONE", at, p, u.Out.Vals[1] == constBool(false) && len(u.Events) == 0, "orders are matched although nothing is matchable")
		case u.Facts.has(found):
			r.ob("SINGLE-MATCHED", at, p, u.Out.Vals[1] == constBool(true), "a match is reported as none")
			mkD := func(sd string, amt *Term) *distribution {
				return &distribution{list: w.ticksOf(ob, sd), amt: amt, price: price,
					orders: func(el *Term) *Term { return w.tickFld(el, "orders") },
					part:   nTick, partArg: func(el *Term) *Term { return el }}
			}
			sells := mkD("sells", amt)
			r.distribute("SINGLE-SELL", at, u, sells)
			sums := ledger(u.Facts, u.Events, sells.amountOf)
			if !r.ob("SINGLE-SUM", at, p, len(sums) > 0, "the amount the sell orders match is not known") {
				continue
			}
			// the buy orders get exactly what the sell orders gave
			var best *R
			for _, s := range sums {
				t := newR(w, r.ID)
				t.distribute("SINGLE-BUY", at, u, mkD("buys", s))
				if best == nil || len(t.Fails) < len(best.Fails) {
					best = t
				}
			}
			r.merge(best)
			r.ob("SINGLE-DIFF", at, p, sumIs(u.Facts, u.Events, quoteDiff, u.Out.Vals[0]), "the quote coin difference is not the sum over the fills")
			for _, ev := range allEvents(u.Events) {
				r.ob("SINGLE-ONLY", at, ev.Pos, !fillEvent(ev) || ev.Kind == "loop" || sells.mine(ev) || mkD("buys", amt).mine(ev), "orders of neither side are filled")
			}
		default:
			r.ob("SINGLE-FOUND", at, p, false, "orders are matched without finding the matchable amount")
		}
	}
	r.floor("SINGLE-NONE", 1)
	r.floor("SINGLE-BUY-PART-AMOUNT", 1)
	r.floor("SINGLE-SELL-PART-AMOUNT", 1)
	r.floor("SINGLE-DIFF", 1)
}

// findRule: the matchable amount does not exceed what the ticks within the
// limit offer on either side, taken from the best tick on.
func (r *R) findRule(w *World) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "FindMatchableAmountAtSinglePrice"), nTMA)
	at := "amm.FindMatchableAmountAtSinglePrice"
	r.ob("FIND", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, price := x.Args[0], x.Args[1]
	for _, u := range x.units() {
		if u.Loop != nil || u.Out.Vals[1] == constBool(false) {
			continue
		}
		p := u.Out.Pos
		r.ob("FIND-FOUND", at, p, u.Out.Vals[1] == constBool(true), "found is %v", u.Out.Vals[1])
		for _, sd := range []string{"buys", "sells"} {
			list := w.ticksOf(ob, sd)
			why := "the matchable amount is not bounded by the amount of the " + sd
			ok := false
			for _, t := range minLeaves(u.Out.Vals[0]) {
				good, msg := w.prefixSum(u, t, list, price)
				ok = ok || good
				if msg != "" {
					why = sd + ": " + msg
				}
			}
			r.ob("FIND-"+strings.ToUpper(sd), at, p, ok, "%s", why)
		}
	}
	r.floor("FIND-BUYS", 1)
	r.floor("FIND-SELLS", 1)
}

func muLoop(u *Unit, m *Term) *Event {
	for _, ev := range u.Events {
		if ev.Kind == "loop" && ev.Mus[m] != nil {
			return ev
		}
	}
	return nil
}

// prefixSum: t is the total matchable amount of the first entries of the list.
func (w *World) prefixSum(u *Unit, t, list, price *Term) (bool, string) {
	f := u.Facts
	t0 := t
	if ev := muLoop(u, t); ev != nil && scanOf(u, ev, list) == nil {
		// entries are dropped from the end
		mi := ev.Mus[t]
		for i, b := range mi.Backs {
			d := linAdd(b.Val, t, -1, nil)
			bf := ev.Bodies[i].Facts
			var tma *Term
			if n := linNeg(d, nil); n.Op == "call" && n.Name == nTMA && n.Args[1] == price {
				tma = n
			} else if d != ci(0) {
				return false, "the total changes by something other than an entry"
			}
			for _, m := range sortedMus(ev) {
				if m == t || len(ev.Mus[m].Backs) != len(mi.Backs) || ev.Mus[m].Init == nil {
					continue
				}
				in := ev.Mus[m].Init
				tk := listOfLast(in)
				if tk == nil || !w.buildsPrefix(u, tk, list) {
					continue
				}
				step := linAdd(ev.Mus[m].Backs[i].Val, m, -1, nil)
				if tma == nil && step != ci(0) {
					return false, "an entry is dropped without taking its amount off"
				}
				if tma != nil {
					if tma.Args[0] != w.tickFld(mkElem(tk, m), "orders") || step != ci(-1) {
						return false, "the amount taken off is not that of the entry dropped"
					}
					if !bf.has(neL(m, ci(0))) && !bf.has(ltL(ci(0), m, true)) {
						return false, "entries may be dropped beyond the first"
					}
					tma = nil
					break
				}
			}
			if tma != nil {
				return false, "the amount taken off is not that of the last entry"
			}
		}
		t0 = mi.Init
	}
	ev := muLoop(u, t0)
	if ev == nil {
		return false, ""
	}
	s := scanOf(u, ev, list)
	if s == nil {
		return false, ""
	}
	mi := ev.Mus[t0]
	if mi.Init != ci(0) {
		return false, "the total does not start at zero"
	}
	for i, b := range mi.Backs {
		if !linSame(s.bodies[i].Facts, linAdd(b.Val, t0, -1, nil), callT(nTMA, w.tickFld(s.el, "orders"), price)) {
			return false, "the total does not add up the entries"
		}
	}
	_ = f
	return true, ""
}

// listOfLast: t is the index of the last element of a list.
func listOfLast(t *Term) *Term {
	n := linAdd(t, ci(1), 1, nil)
	if n.Op == "len" {
		return n.Args[0]
	}
	return nil
}

// buildsPrefix: the list is the part of another list seen by the scan.
func (w *World) buildsPrefix(u *Unit, tk, list *Term) bool {
	ev := muLoop(u, tk)
	if ev == nil {
		return false
	}
	s := scanOf(u, ev, list)
	if s == nil {
		return false
	}
	for i, b := range ev.Mus[tk].Backs {
		sg := segments(b.Val)
		if len(sg) != 1 || sg[0].list != list || sg[0].lo != ci(0) || sg[0].hi == nil || !linSame(s.bodies[i].Facts, sg[0].hi, linAdd(s.idx, ci(1), 1, nil)) {
			return false
		}
	}
	return mkLen(ev.Mus[tk].Init) == ci(0)
}

// flagOK: a side's direction flag is the one its constructor sets.
func (w *World) sideFlag(ob *Term, sd string) Lit {
	s := w.fld(w.derefAs(ob, "OrderBook"), "OrderBook", sd)
	return Lit{w.fld(w.derefAs(s, "orderBookTicks"), "orderBookTicks", "priceIncreasing"), sd == "sells"}
}

func (r *R) matchRule(w *World) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "Match"), "!"+nTick, "!"+nMASP, nTMA, nDir)
	at := "amm.Match"
	r.ob("MATCH", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, last := x.Args[0], x.Args[1]
	dir := callT(nDir, ob, last)
	undirected := func(f *Facts) bool {
		return f.contra(eqL(dir, ci(1))) && f.contra(eqL(dir, ci(2))) && f.contra(eqL(dir, ci(3)))
	}
	of := func(ev *Event, list *Term) bool {
		return ev.Kind == "call" && ev.Name == nTick && ev.Args[0].Op == "elem" && ev.Args[0].Args[0] == list
	}
	buys, sells := w.ticksOf(ob, "buys"), w.ticksOf(ob, "sells")
	round := func(f *Facts, evs []*Event, p token.Pos) {
		var b, s []*Event
		for _, ev := range evs {
			switch {
			case of(ev, buys):
				b = append(b, ev)
			case of(ev, sells):
				s = append(s, ev)
			default:
				r.ob("MATCH-ONLY", at, ev.Pos, !fillEvent(ev), "other orders are filled during matching")
			}
		}
		if len(b)+len(s) == 0 {
			return
		}
		if !r.ob("MATCH-PAIRED", at, p, len(b) == 1 && len(s) == 1, "%d buy and %d sell ticks are matched together", len(b), len(s)) {
			return
		}
		price := b[0].Args[2]
		r.ob("MATCH-ONE-PRICE", at, p, f.same(price, s[0].Args[2]), "buy orders match at %v, sell orders at %v", price, s[0].Args[2])
		r.ob("MATCH-SAME-AMOUNT", at, p, linSame(f, b[0].Args[1], proj(s[0].Res, 1)), "buy orders match %v, which is not what the sell orders gave", b[0].Args[1])
		for k, ev := range []*Event{b[0], s[0]} {
			// what the sell orders give is bounded by what they were asked for
			t := callT(nTMA+s[0].Ver, w.tickFld(ev.Args[0], "orders"), price)
			if k == 0 && s[0].Pos > b[0].Pos {
				t = callT(nTMA+b[0].Ver, w.tickFld(ev.Args[0], "orders"), price)
			}
			ok := leq(f, s[0].Args[1], t)
			if !ok {
				a := callT(nTMA, w.tickFld(ev.Args[0], "orders"), price)
				ok = leq(f, s[0].Args[1], a)
			}
			r.ob("MATCH-BOUND", at, ev.Pos, ok, "a tick may be asked for %v, more than it has", s[0].Args[1])
		}
	}
	// what matching at a single price returns when nothing matches is not a number
	zeroFirst := true
	for _, o := range w.run(w.P.fn(pAmm, "OrderBook", "MatchAtSinglePrice"), "!"+nFulA, "!"+nTick, nTMA, nFind).rets() {
		if len(o.Vals) == 2 && o.Vals[1] == constBool(false) {
			zeroFirst = zeroFirst && o.Vals[0] == ci(0)
		}
	}
	for _, u := range x.units() {
		if undirected(u.Facts) {
			continue
		}
		if u.Loop != nil {
			round(u.Facts, u.Events, u.pos())
			continue
		}
		p := u.Out.Pos
		var first *Event
		rest := []*Event{}
		for _, ev := range u.Events {
			if ev.Kind == "call" && ev.Name == nMASP {
				r.ob("MATCH-FIRST", at, ev.Pos, first == nil && len(rest) == 0 && ev.Args[0] == ob && f0(u, ev.Args[1], last), "single price matching is not the first step")
				first = ev
				continue
			}
			if ev.Kind != "loop" {
				rest = append(rest, ev)
			}
		}
		round(u.Facts, rest, p)
		if len(u.Out.Vals) != 3 {
			continue
		}
		diff, matched := u.Out.Vals[1], u.Out.Vals[2]
		if matched == constBool(false) {
			r.ob("MATCH-NONE", at, p, first == nil && len(allEvents(u.Events)) == 0, "a match is reported as none")
			continue
		}
		if !r.ob("MATCH-FIRST", at, p, first != nil, "single price matching is left out") {
			continue
		}
		mfirst := Lit{proj(first.Res, 1), true}
		// reported as matched if any round matched
		okM := matched == mfirst.a || u.Facts.has(mfirst) && matched == constBool(true)
		if ev := muLoop(u, matched); ev != nil {
			okM = ev.Mus[matched].Init == mfirst.a || u.Facts.has(mfirst) && ev.Mus[matched].Init == constBool(true) || u.Facts.contra(mfirst) && ev.Mus[matched].Init == constBool(false)
			for i, b := range ev.Mus[matched].Backs {
				if undirected(b.Facts) {
					continue
				}
				n := 0
				for _, e := range ev.Bodies[i].Events {
					if fillEvent(e) {
						n++
					}
				}
				okM = okM && (n > 0 && b.Val == constBool(true) || n == 0 && b.Val == matched)
			}
		}
		loops := 0
		for _, ev := range u.Events {
			if ev.Kind == "loop" {
				loops++
			}
		}
		if loops > 0 && muLoop(u, matched) == nil {
			okM = matched == constBool(true) && u.Facts.has(mfirst)
		}
		r.ob("MATCH-REPORTED", at, p, okM, "whether orders matched is reported as %v", matched)
		sum := func(ev *Event) *Term {
			if ev == first {
				if loops > 0 && !u.Facts.has(mfirst) && !zeroFirst {
					return ci(0)
				}
				return proj(ev.Res, 0)
			}
			return quoteDiff(ev)
		}
		r.ob("MATCH-DIFF", at, p, sumIs2(u, sum, diff, undirected), "the quote coin difference is not the sum over the fills")
	}
	r.floor("MATCH-PAIRED", 1)
	r.floor("MATCH-BOUND", 1)
	r.floor("MATCH-DIFF", 1)
	// the direction is one of three
	x = w.run(w.P.fn(pAmm, "OrderBook", "PriceDirection"), nTMA)
	for _, o := range x.rets() {
		v := o.Vals[0]
		r.ob("DIRECTION", "amm.PriceDirection", o.Pos, x.Err == "" && (v == ci(1) || v == ci(2) || v == ci(3)), "returns %v", v)
	}
	r.floor("DIRECTION", 1)
}

func f0(u *Unit, a, b *Term) bool { return u.Facts.same(a, b) }

// sumIs2 is sumIs without the iterations excluded by skip.
func sumIs2(u *Unit, contrib func(ev *Event) *Term, t *Term, skip func(f *Facts) bool) bool {
	evs := make([]*Event, 0, len(u.Events))
	for _, ev := range u.Events {
		if ev.Kind == "loop" {
			c := *ev
			c.Bodies, c.Mus = nil, map[*Term]*MuInfo{}
			for m, mi := range ev.Mus {
				if len(mi.Backs) == len(ev.Bodies) {
					c.Mus[m] = &MuInfo{Init: mi.Init, Loop: mi.Loop}
				}
			}
			for i, b := range ev.Bodies {
				if skip(b.Facts) {
					continue
				}
				c.Bodies = append(c.Bodies, b)
				for m := range c.Mus {
					c.Mus[m].Backs = append(c.Mus[m].Backs, ev.Mus[m].Backs[i])
				}
			}
			evs = append(evs, &c)
			continue
		}
		evs = append(evs, ev)
	}
	return sumIs(u.Facts, evs, contrib, t)
}
