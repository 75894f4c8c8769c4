package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// P20: priority. Better prices first, then earlier batches, then larger
// orders, then earlier ones.

func ruleP20(w *World, r *R) {
	r.sortedRule(w)
	r.groupRule(w)
	r.sortRule(w)
	r.priorityRule(w)
	r.serveRule(w)
}

// groupRule: orders are grouped by batch, earlier batches first and orders of
// no batch last.
func (r *R) groupRule(w *World) {
	x := w.run(w.P.fn(pAmm, "", "GroupOrdersByBatchId"))
	at := "amm.GroupOrdersByBatchId"
	r.ob("GROUP", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	orders := x.Args[0]
	grpT := w.P.namedType(pAmm, "OrderGroup")
	if grpT == nil {
		r.ob("GROUP", at, x.Fn.Pos(), false, "no order groups")
		return
	}
	fld := func(g *Term, name string) *Term { return mkField(g, grpT, fieldIdx(grpT, name)) }
	of := func(g *Term, name string) *Term { return fld(mk("deref", "", grpT, g), name) }
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		p := u.Out.Pos
		ss := scans(u, u.Events, orders)
		if !r.ob("GROUP-ALL", at, p, len(ss) == 1 && ss[0].done(u.Facts), "orders may be left out") {
			continue
		}
		s := ss[0]
		groups := u.Out.Vals[0]
		mi := s.ev.Mus[groups]
		if !r.ob("GROUP-LIST", at, p, mi != nil && mkLen(mi.Init) == ci(0) && len(mi.Backs) == len(s.bodies), "the groups returned are %v", groups) {
			continue
		}
		for i, b := range s.bodies {
			f := b.Facts
			id := getOf(s.el, "BatchId")
			bp := s.ev.Pos
			known, fresh := (*Term)(nil), (*Term)(nil)
			for _, k := range lookupsOf(f, "mapok", id) {
				if f.has(Lit{k, true}) {
					known = k
				} else if f.has(Lit{k, false}) {
					fresh = k
				}
			}
			back := mi.Backs[i]
			switch {
			case known != nil:
				r.ob("GROUP-KEEP", at, bp, back.Val == groups, "the groups change although the batch has one")
				g := mk("maplookup", known.Name, nil, known.Args...)
				ok := false
				for _, m := range sortedMus(s.ev) {
					o := s.ev.Mus[m]
					if len(o.Backs) != len(s.bodies) || o.Init == nil || o.Init.Op != "field" || o.Init.Args[0].Op != "deref" || o.Init.Args[0].Args[0] != g || o.Init != of(g, "Orders") {
						continue
					}
					el, at, ins := inserted(f, m, o.Backs[i].Val)
					ok = ok || ins && el == s.el && (at == nil || linSame(f, at, mkLen(m)))
				}
				r.ob("GROUP-OWN", at, bp, ok, "an order is not added to the group of its batch")
			case fresh != nil:
				el, pos, ins := inserted(f, groups, back.Val)
				if !r.ob("GROUP-NEW", at, bp, ins, "the groups become %v", back.Val) {
					continue
				}
				if pos == nil {
					pos = mkLen(groups)
				}
				set := 0
				for _, e := range b.Events {
					if e.Kind == "mapset" {
						set++
						r.ob("GROUP-KNOWN", at, e.Pos, e.Args[0] == fresh.Args[0] && e.Args[1] == id && e.Args[2] == el, "the group of batch %v is noted as %v", e.Args[1], e.Args[2])
					}
				}
				r.ob("GROUP-KNOWN", at, bp, set == 1, "a new group is noted %d times", set)
				var g *Term
				if snapEl, _, ok := inserted(f, groups, back.Snap); ok && snapEl.Op == "ref" {
					g = snapEl.Args[0]
				}
				ok := g != nil && fld(g, "BatchId") == id
				if ok {
					sg := segments(fld(g, "Orders"))
					ok = len(sg) == 1 && sg[0].el == s.el
				}
				r.ob("GROUP-NEW", at, bp, ok, "a new group is %v", g)
				// a before b: b has no batch, or a's is earlier
				none := func(t *Term) bool { return f.has(eqL(t, ci(0))) }
				some := func(t *Term) bool { return f.has(neL(t, ci(0))) || f.has(ltL(ci(0), t, true)) }
				before := func(a, b *Term) bool {
					return some(a) && none(b) || some(a) && f.has(ltL(a, b, true)) || some(a) && f.has(geL(b, a, true)) && some(b)
				}
				prev, next := f.eqVia(pos, ci(0)), linSame(f, pos, mkLen(groups)) || f.eqVia(pos, mkLen(groups))
				for _, j := range f.equals(pos) {
					pv := of(mkElem(groups, linAdd(j, ci(1), -1, nil)), "BatchId")
					nx := of(mkElem(groups, j), "BatchId")
					prev = prev || before(pv, id)
					next = next || before(id, nx) || none(id) && none(nx)
				}
				r.ob("GROUP-AFTER", at, bp, prev, "a batch may go before an earlier one")
				r.ob("GROUP-BEFORE", at, bp, next, "a batch may go after a later one")
			default:
				r.ob("GROUP-KNOWN", at, bp, false, "an order is added without looking for its batch")
			}
		}
	}
	r.floor("GROUP-AFTER", 1)
	r.floor("GROUP-BEFORE", 1)
	r.floor("GROUP-OWN", 1)
}

// sortRule: sorting puts orders with priority first.
func (r *R) sortRule(w *World) {
	x := w.run(w.P.fn(pAmm, "", "SortOrders"))
	at := "amm.SortOrders"
	r.ob("SORT", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	for _, o := range x.rets() {
		var es []*Event
		for _, e := range o.Events() {
			if e.Kind == "sort" {
				es = append(es, e)
			}
		}
		if !r.ob("SORT-ONCE", at, o.Pos, len(es) == 1, "orders are sorted %d times", len(es)) {
			continue
		}
		e := es[0]
		l := e.Args[0]
		if l.Op == "iface" && len(l.Args) == 1 {
			l = l.Args[0]
		}
		r.ob("SORT-ALL", at, e.Pos, l == x.Args[0], "sorts %v", l)
		i, j := mk("param", "i", types.Typ[types.Int]), mk("param", "j", types.Typ[types.Int])
		outs, ok := w.applyFn(e.Args[1], []*Term{i, j}, o.St)
		if !r.ob("SORT-ORDER", at, e.Pos, ok && len(outs) > 0, "cannot analyse the comparison") {
			continue
		}
		for _, c := range outs {
			v := c.Vals[0]
			good := false
			for _, e := range c.Events() {
				if e.Kind == "invoke" && e.Name == pAmm+".Order.HasPriority" && e.Res == v {
					good = e.Args[0] == mkElem(x.Args[0], i) && e.Args[1] == mkElem(x.Args[0], j)
				}
			}
			r.ob("SORT-ORDER", at, c.Pos, good, "an order goes first when %v", v)
		}
	}
	r.floor("SORT-ORDER", 1)
}

// priorityRule: larger orders first; among equal ones orders of users before
// those of pools, and lower ids first.
func (r *R) priorityRule(w *World) {
	for _, t := range w.orderTypes() {
		fn := w.ptrMethod(t, "HasPriority")
		at := t.Obj().Name() + ".HasPriority"
		if !r.ob("PRIORITY", at, t.Obj().Pos(), fn != nil, "no priority") {
			continue
		}
		x := w.run(fn)
		r.ob("PRIORITY", at, fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
		if len(x.Args) != 2 {
			continue
		}
		self, other := x.Args[0], x.Args[1]
		mine := w.ordRead(t, self, "Amount")
		theirs := getOf(other, "Amount")
		for _, o := range x.rets() {
			f, p := o.Facts(), o.Pos
			if t.Obj().Name() == "BaseOrder" || f.has(neL(mine, theirs)) {
				r.ob("PRIORITY-AMOUNT", at, p, truth(o, ltL(theirs, mine, false)), "an order goes first by %v", o.Vals[0])
				continue
			}
			if !r.ob("PRIORITY-EQUAL", at, p, f.has(eqL(mine, theirs)) || f.has(geL(mine, theirs, false)) && f.has(geL(theirs, mine, false)), "amounts are not compared first") {
				continue
			}
			isUser, isPool := f.has(w.isOrderType(other, "UserOrder")), f.has(w.isOrderType(other, "PoolOrder"))
			selfUser := t.Obj().Name() == "UserOrder"
			switch {
			case isUser && selfUser:
				a, b := w.ordRead(t, self, "OrderId"), w.orderFld(other, "UserOrder", "OrderId")
				r.ob("PRIORITY-ID", at, p, truth(o, ltL(a, b, true)), "an order goes first by %v", o.Vals[0])
			case isPool && !selfUser:
				a, b := w.ordRead(t, self, "PoolId"), w.orderFld(other, "PoolOrder", "PoolId")
				r.ob("PRIORITY-ID", at, p, truth(o, ltL(a, b, true)), "an order goes first by %v", o.Vals[0])
			default:
				r.ob("PRIORITY-KIND", at, p, isUser != isPool && o.Vals[0] == constBool(selfUser), "an order goes first by %v", o.Vals[0])
			}
		}
	}
	r.floor("PRIORITY-AMOUNT", 1)
	r.floor("PRIORITY-ID", 1)
	r.floor("PRIORITY-KIND", 1)
}

// ordRead reads a field of an order, or of the base order in it.
func (w *World) ordRead(t *types.Named, self *Term, name string) *Term {
	d := mk("deref", "", t, self)
	if fieldIdx(t, name) >= 0 {
		return mkField(d, t, fieldIdx(t, name))
	}
	base := mkField(d, t, fieldIdx(t, "BaseOrder"))
	return w.fld(w.derefAs(base, "BaseOrder"), "BaseOrder", name)
}

// serveRule: within a price, groups are served in order, and a group that gets
// less than it wants is sorted by priority first.
func (r *R) serveRule(w *World) {
	at := "amm.DistributeOrderAmountToTick"
	sortN := pAmm + ".SortOrders"
	x := w.run(w.P.fn(pAmm, "", "DistributeOrderAmountToTick"), "!"+nFulA, "!"+nOrds, "!"+sortN, nTMA, pAmm+".GroupOrdersByBatchId")
	r.ob("SERVE", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	grpT := w.P.namedType(pAmm, "OrderGroup")
	for _, u := range x.units() {
		if u.Loop == nil {
			groups := callT(pAmm+".GroupOrdersByBatchId", w.tickFld(x.Args[0], "orders"))
			ordersOf := func(el *Term) *Term { return mkField(mk("deref", "", grpT, el), grpT, fieldIdx(grpT, "Orders")) }
			r.distribute("SERVE", at, u, &distribution{list: groups, amt: x.Args[1], price: x.Args[2], orders: ordersOf, part: nOrds, partArg: ordersOf})
		}
		for i, ev := range u.Events {
			if ev.Kind != "call" || ev.Name != nOrds {
				continue
			}
			ok := false
			for _, e := range u.Events[:i] {
				if e.Kind == "call" && e.Name == sortN {
					ok = len(e.Args) == 1 && e.Args[0] == ev.Args[0]
				} else if e.Kind == "mapset" || e.Kind == "sort" {
					ok = false
				}
			}
			r.ob("SERVE-SORTED", at, ev.Pos, ok, "an amount is handed out to orders that are not sorted by priority")
		}
	}
	// no one else hands out an amount to orders
	allowed := map[*ssa.Function]bool{w.P.fn(pAmm, "", "DistributeOrderAmountToTick"): true, w.P.fn(pAmm, "", "DistributeOrderAmountToOrders"): true}
	for _, c := range w.users(w.P.fn(pAmm, "", "DistributeOrderAmountToOrders")) {
		r.ob("SERVE-WHERE", c.Name(), c.Pos(), w.onlyFrom(c, allowed), "an amount is handed out to orders elsewhere")
	}
	r.floor("SERVE-SORTED", 1)
	// what is left after the shares goes to orders in order of priority
	r.leftoverRule(w)
}

func (r *R) leftoverRule(w *World) {
	at := "amm.DistributeOrderAmountToOrders"
	x := w.run(w.P.fn(pAmm, "", "DistributeOrderAmountToOrders"), nMA, pAmm+".TotalAmount", "!"+nFill)
	orders, amt, price := x.Args[0], x.Args[1], x.Args[2]
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		if rec := opaqueCalls(u.Events, "DistributeOrderAmountToOrders"); len(rec) > 0 {
			// the order passed over is the last one
			ok := true
			for _, ev := range rec {
				sg := segments(ev.Args[0])
				if len(sg) == 1 && sg[0].list == orders {
					ok = ok && sg[0].lo == ci(0)
				}
			}
			r.ob("LEFTOVER-LAST", at, u.Out.Pos, ok, "an order is passed over that is not the last one")
			continue
		}
		n := 0
		for _, s := range scans(u, u.Events, orders) {
			var sets []*Event
			for _, b := range s.bodies {
				for _, e := range b.Events {
					if e.Kind == "mapset" {
						sets = append(sets, e)
					}
				}
			}
			// the remaining amount: a loop-carried value that starts as the
			// amount less the shares and goes down by what orders get
			for _, m := range sortedMus(s.ev) {
				mi := s.ev.Mus[m]
				if mi.Init == nil || len(mi.Backs) != len(s.bodies) || len(sets) == 0 {
					continue
				}
				d := linAdd(mi.Init, amt, -1, nil)
				isRem := d != ci(0) || mi.Init == amt
				for i, b := range mi.Backs {
					dv := linAdd(m, b.Val, -1, nil)
					got := ci(0)
					for _, e := range s.bodies[i].Events {
						if e.Kind == "mapset" && e.Args[1] == s.el {
							prev := ci(0)
							for _, k := range lookupsOf(e.Facts, "mapok", s.el) {
								if e.Facts.has(Lit{k, true}) {
									prev = mk("maplookup", k.Name, nil, k.Args...)
								}
							}
							got = linAdd(e.Args[2], prev, -1, nil)
							whole := false
							for _, l := range minLeaves(got) {
								whole = whole || l == m
							}
							isRem = isRem && whole && hasLeaf(got, linAdd(callT(nMA, s.el, price), prev, -1, nil))
						}
					}
					isRem = isRem && linSame(s.bodies[i].Facts, dv, got) && got != ci(0)
				}
				if isRem {
					n++
				}
			}
		}
		r.ob("LEFTOVER-IN-ORDER", at, u.Out.Pos, n == 1, "what is left over does not go to orders by priority, as much as each can take")
	}
	r.floor("LEFTOVER-IN-ORDER", 1)
}

func hasLeaf(t, leaf *Term) bool {
	for _, l := range minLeaves(t) {
		if l == leaf {
			return true
		}
	}
	return false
}
