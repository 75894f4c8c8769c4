package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// P19: orders match only at prices within their limits. P20: who goes first.

func ruleP19(w *World, r *R) {
	r.bookRule(w)
	r.sortedRule(w)
	r.findLimits(w)
	r.matchLimits(w)
}

// bookRule: an order goes to the side of its direction, if it can match at all.
func (r *R) bookRule(w *World) {
	add := "(*" + pAmm + ".orderBookTicks).addOrder"
	x := w.run(w.P.fn(pAmm, "OrderBook", "AddOrder"), "!"+add, nMA)
	at := "amm.OrderBook.AddOrder"
	r.ob("BOOK", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, orders := x.Args[0], x.Args[1]
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		ss := scans(u, u.Events, orders)
		if !r.ob("BOOK-ALL", at, u.Out.Pos, len(ss) == 1 && ss[0].done(u.Facts), "orders may be left out of the book") {
			continue
		}
		s := ss[0]
		n := 0
		for _, ev := range allEvents(u.Events) {
			if ev.Kind == "call" && ev.Name == add {
				n++
			}
		}
		for _, b := range s.bodies {
			f := b.Facts
			amt := callT(nMA, s.el, getOf(s.el, "Price"))
			can, cannot := f.has(ltL(ci(0), amt, false)), f.has(geL(ci(0), amt, false))
			evs := callEvents(b.Events, add)
			n -= len(evs)
			sd := side(f, s.el)
			switch {
			case len(evs) == 0:
				odd := f.contra(eqL(getOf(s.el, "Direction"), ci(1))) && f.contra(eqL(getOf(s.el, "Direction"), ci(2)))
				r.ob("BOOK-LEFT-OUT", at, s.ev.Pos, cannot || odd, "an order that can match is left out of the book")
			case r.ob("BOOK-ONCE", at, evs[0].Pos, len(evs) == 1 && evs[0].Args[1] == s.el, "an order is put in %d times", len(evs)):
				r.ob("BOOK-MATCHABLE", at, evs[0].Pos, can, "an order is put in that cannot match at its price")
				name := [...]string{"", "buys", "sells"}[sd]
				want := w.fld(w.derefAs(ob, "OrderBook"), "OrderBook", name2(name))
				r.ob("BOOK-SIDE", at, evs[0].Pos, sd != 0 && evs[0].Args[0] == want, "an order goes to %v whatever its direction", evs[0].Args[0])
			}
		}
		r.ob("BOOK-ONCE", at, u.Out.Pos, n == 0, "orders are put in outside the loop over them")
	}
	r.floor("BOOK-SIDE", 1)
	r.floor("BOOK-LEFT-OUT", 1)
}

func name2(s string) string {
	if s == "" {
		return "buys"
	}
	return s
}

// sortedRule: the ticks of a side are kept in order, best price first, one per
// price, with every order on the tick of its price.
func (r *R) sortedRule(w *World) {
	tickAdd := ".orderBookTick).addOrder"
	x := w.run(w.P.fn(pAmm, "orderBookTicks", "addOrder"), "!"+tickAdd)
	at := "amm.orderBookTicks.addOrder"
	r.ob("SORTED", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ticks, order := x.Args[0], x.Args[1]
	side := w.derefAs(ticks, "orderBookTicks")
	list := w.fld(side, "orderBookTicks", "ticks")
	flag := w.fld(side, "orderBookTicks", "priceIncreasing")
	price := getOf(order, "Price")
	strict := func(f *Facts, a, b *Term) bool { // a comes before b
		inc, dec := f.has(Lit{flag, true}), f.has(Lit{flag, false})
		lt := func(a, b *Term) bool {
			return f.has(ltL(a, b, false)) || f.has(geL(b, a, false)) && f.has(neL(a, b))
		}
		return inc && lt(a, b) || dec && lt(b, a)
	}
	for _, o := range x.rets() {
		f, p := o.Facts(), o.Pos
		after := list
		if c, ok := o.St.mem[ticks]; ok {
			after = w.fld(c, "orderBookTicks", "ticks")
			r.ob("SORTED-FLAG", at, p, w.fld(c, "orderBookTicks", "priceIncreasing") == flag, "the direction of the side changes")
		}
		evs := opaqueCalls(o.Events(), "orderBookTick).addOrder")
		if after == list {
			if r.ob("TICK-ADD", at, p, len(evs) == 1 && evs[0].Args[1] == order, "an order is added to %d ticks", len(evs)) {
				el := evs[0].Args[0]
				r.ob("TICK-PRICE", at, evs[0].Pos, el.Op == "elem" && el.Args[0] == list && f.has(eqL(price, w.tickFld(el, "price"))), "an order is put on a tick of another price")
			}
			continue
		}
		el, i, ok := inserted(f, list, after)
		if !r.ob("TICK-INSERT", at, p, ok && len(evs) == 0, "the ticks become %v", after) {
			continue
		}
		if i == nil {
			i = mkLen(list)
		}
		c := o.St.mem[el]
		okT := c != nil && w.fld(c, "orderBookTick", "price") == price
		if okT {
			sg := segments(w.fld(c, "orderBookTick", "orders"))
			okT = len(sg) == 1 && sg[0].el == order
		}
		r.ob("TICK-NEW", at, p, okT, "a new tick is %v", c)
		prev, next := f.eqVia(i, ci(0)), linSame(f, i, mkLen(list)) || f.eqVia(i, mkLen(list))
		for _, j := range f.equals(i) {
			prev = prev || strict(f, w.tickFld(mkElem(list, linAdd(j, ci(1), -1, nil)), "price"), price)
			next = next || strict(f, price, w.tickFld(mkElem(list, j), "price"))
		}
		r.ob("SORTED-AFTER", at, p, prev, "a tick may be put before one that is better or equal")
		r.ob("SORTED-BEFORE", at, p, next, "a tick may be put after one that is worse or equal")
	}
	r.floor("SORTED-AFTER", 1)
	r.floor("SORTED-BEFORE", 1)
	r.floor("TICK-PRICE", 1)

	x = w.run(w.P.fn(pAmm, "orderBookTick", "addOrder"))
	at = "amm.orderBookTick.addOrder"
	for _, o := range x.rets() {
		tick, order := x.Args[0], x.Args[1]
		c := o.St.mem[tick]
		was := w.tickFld(tick, "orders")
		ok := c != nil && w.fld(c, "orderBookTick", "price") == w.tickFld(tick, "price")
		if ok {
			el, _, ins := inserted(o.Facts(), was, w.fld(c, "orderBookTick", "orders"))
			ok = ins && el == order
		}
		r.ob("TICK-KEEPS", at, o.Pos, ok, "the tick becomes %v", c)
	}
	r.floor("TICK-KEEPS", 1)

	// a side's direction is set where the book is made, and nowhere else
	x = w.run(w.P.fn(pAmm, "", "NewOrderBook"), "!(*"+pAmm+".OrderBook).AddOrder")
	at = "amm.NewOrderBook"
	for _, o := range x.rets() {
		evs := opaqueCalls(o.Events(), ".OrderBook).AddOrder")
		if !r.ob("NEW-BOOK", at, o.Pos, len(evs) == 1 && evs[0].Args[1] == x.Args[0] && evs[0].Args[0] == o.Vals[0] && len(evs[0].Snap) > 0 && evs[0].Snap[0].Op == "ref", "a new book does not have the orders given") {
			continue
		}
		c := evs[0].Snap[0].Args[0]
		for _, sd := range []string{"buys", "sells"} {
			s := w.fld(c, "OrderBook", sd)
			ok := s.Op == "ref"
			if ok {
				in := s.Args[0]
				fl := w.fld(in, "orderBookTicks", "priceIncreasing")
				ok = fl == constBool(sd == "sells") && mkLen(w.fld(in, "orderBookTicks", "ticks")) == ci(0)
			}
			r.ob("NEW-BOOK-SIDE", at+" "+sd, o.Pos, ok, "the side starts as %v", s)
		}
	}
	r.floor("NEW-BOOK-SIDE", 1)
	r.bookWriters(w)
}

// bookWriters: the parts of a book are written only where it is made and where
// orders are added.
func (r *R) bookWriters(w *World) {
	parts := map[types.Type]bool{}
	for _, n := range []string{"OrderBook", "orderBookTicks", "orderBookTick"} {
		parts[w.P.namedType(pAmm, n)] = true
	}
	allowed := map[*ssa.Function]bool{
		w.P.fn(pAmm, "orderBookTicks", "addOrder"): true,
		w.P.fn(pAmm, "orderBookTick", "addOrder"):  true,
	}
	fns := w.P.fnsOf(pAmm)
	ok := func(f *ssa.Function, d int) bool { return w.onlyFrom(f, allowed) }
	partOf := func(v ssa.Value) types.Type {
		p, k := v.Type().Underlying().(*types.Pointer)
		if !k {
			return nil
		}
		if parts[p.Elem()] {
			return p.Elem()
		}
		return nil
	}
	n := 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, k := in.(*ssa.Store)
				if !k {
					continue
				}
				base := st.Addr
				what := ""
				switch a := base.(type) {
				case *ssa.FieldAddr:
					base, what = a.X, "part"
				case *ssa.IndexAddr:
					if sl, k := a.X.Type().Underlying().(*types.Slice); k {
						if p, k := sl.Elem().(*types.Pointer); k && parts[p.Elem()] {
							r.ob("BOOK-WRITERS", f.Name(), st.Pos(), ok(f, 0), "an element of a list of ticks is replaced")
							n++
						}
					}
					continue
				}
				t := partOf(base)
				if t == nil {
					continue
				}
				if _, fresh := base.(*ssa.Alloc); fresh {
					continue
				}
				n++
				r.ob("BOOK-WRITERS", f.Name(), st.Pos(), ok(f, 0), "a %s of %s is written", what, typeName(t))
			}
		}
	}
	r.floor("BOOK-WRITERS", 1)
	_ = n
}

// findLimits: the amount matched at a single price counts only orders whose
// limit allows that price.
func (r *R) findLimits(w *World) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "FindMatchableAmountAtSinglePrice"), nTMA)
	at := "amm.FindMatchableAmountAtSinglePrice"
	r.ob("LIMIT", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, price := x.Args[0], x.Args[1]
	for _, u := range x.units() {
		if u.Loop != nil || u.Out.Vals[1] == constBool(false) {
			continue
		}
		for _, sd := range []string{"buys", "sells"} {
			list := w.ticksOf(ob, sd)
			n := 0
			for _, s := range scans(u, u.Events, list) {
				adds := false
				for _, m := range sortedMus(s.ev) {
					mi := s.ev.Mus[m]
					for i, b := range mi.Backs {
						if i < len(s.bodies) && b.Val != nil && b.Val.contains(func(t *Term) bool { return t.Op == "call" && t.Name == nTMA && t.Args[1] == price }) {
							adds = true
						}
					}
				}
				if !adds {
					continue
				}
				n++
				for _, b := range s.bodies {
					if b.Facts.contra(w.sideFlag(ob, sd)) {
						continue
					}
					lim := w.tickFld(s.el, "price")
					r.ob("LIMIT-"+sd, at, s.ev.Pos, within(b.Facts, sd, lim, price), "orders that do not accept the price are counted")
				}
			}
			r.ob("LIMIT-COUNTED", at+" "+sd, u.Out.Pos, n == 1, "the amount of a side is counted %d times", n)
		}
	}
	r.floor("LIMIT-buys", 1)
	r.floor("LIMIT-sells", 1)
}

// within: an order with this limit accepts the price.
func within(f *Facts, sd string, limit, price *Term) bool {
	if f.same(limit, price) {
		return true
	}
	if sd == "buys" {
		return f.has(geL(limit, price, false)) || f.has(ltL(price, limit, false))
	}
	return f.has(geL(price, limit, false)) || f.has(ltL(limit, price, false))
}

// matchLimits: ticks matched one by one are matched at a price both accept, and
// the match price reported is one that orders matched at.
func (r *R) matchLimits(w *World) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "Match"), "!"+nTick, "!"+nMASP, nTMA, nDir)
	at := "amm.Match"
	r.ob("MATCH", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, last := x.Args[0], x.Args[1]
	dir := callT(nDir, ob, last)
	undirected := func(f *Facts) bool {
		return f.contra(eqL(dir, ci(1))) && f.contra(eqL(dir, ci(2))) && f.contra(eqL(dir, ci(3)))
	}
	// the price a round of matching uses
	roundPrice := func(f *Facts, evs []*Event) (*Term, token.Pos) {
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Name == nTick {
				return ev.Args[2], ev.Pos
			}
		}
		return nil, 0
	}
	for _, u := range x.units() {
		if undirected(u.Facts) {
			continue
		}
		evs := u.Events
		for _, ev := range evs {
			if ev.Kind != "call" || ev.Name != nTick || ev.Args[0].Op != "elem" {
				continue
			}
			for _, sd := range []string{"buys", "sells"} {
				if ev.Args[0].Args[0] == w.ticksOf(ob, sd) {
					r.ob("MATCH-LIMIT-"+sd, at, ev.Pos, within(u.Facts, sd, w.tickFld(ev.Args[0], "price"), ev.Args[2]), "orders match at %v, which their limit may not allow", ev.Args[2])
				}
			}
		}
		if u.Loop != nil || len(u.Out.Vals) != 3 {
			continue
		}
		matched := u.Out.Vals[2]
		if matched == constBool(false) {
			continue
		}
		var first *Event
		for _, ev := range u.Events {
			if ev.Kind == "call" && ev.Name == nMASP {
				first = ev
				r.ob("FIRST-PRICE", at, ev.Pos, u.Facts.same(ev.Args[1], last), "the first step is not at the last price")
			}
		}
		mp := u.Out.Vals[0]
		part := func(t *Term) *Term { return t }
		if muLoop(u, mp) == nil && mp.Op == "struct" && len(mp.Args) == 1 {
			n := structFieldNames(mp.Typ)[0]
			part = func(t *Term) *Term { return F(t, n) }
			mp = mp.Args[0]
		}
		ok := first != nil && u.Facts.same(mp, part(first.Args[1]))
		if ev := muLoop(u, mp); ev != nil {
			mi := ev.Mus[mp]
			ok = first != nil && u.Facts.same(mi.Init, part(first.Args[1]))
			for i, b := range mi.Backs {
				if undirected(ev.Bodies[i].Facts) {
					continue
				}
				p, _ := roundPrice(ev.Bodies[i].Facts, ev.Bodies[i].Events)
				ok = ok && (p == nil && b.Val == mp || p != nil && ev.Bodies[i].Facts.same(b.Val, part(p)))
			}
		} else {
			for _, ev := range u.Events {
				if ev.Kind == "loop" {
					for _, b := range ev.Bodies {
						p, _ := roundPrice(b.Facts, b.Events)
						ok = ok && (p == nil || undirected(b.Facts))
					}
				}
			}
		}
		r.ob("MATCH-PRICE", at, u.Out.Pos, ok, "the match price reported is %v, not the last one orders matched at", mp)
	}
	r.floor("MATCH-LIMIT-buys", 1)
	r.floor("MATCH-LIMIT-sells", 1)
	r.floor("MATCH-PRICE", 1)
}

// users are the functions of the repository that refer to a function.
func (w *World) users(g *ssa.Function) []*ssa.Function {
	if w.callers == nil {
		w.callers = map[*ssa.Function][]*ssa.Function{}
		for _, f := range w.P.AllFns {
			seen := map[*ssa.Function]bool{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops []*ssa.Value
					for _, op := range in.Operands(ops) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
							seen[g] = true
							w.callers[g] = append(w.callers[g], f)
						}
					}
				}
			}
		}
	}
	return w.callers[g]
}

// onlyFrom: f is one of the functions allowed, or used only by such functions.
func (w *World) onlyFrom(f *ssa.Function, allowed map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var ok func(f *ssa.Function) bool
	ok = func(f *ssa.Function) bool {
		if allowed[f] || seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil && ok(f.Parent()) {
			return true
		}
		us := w.users(f)
		for _, c := range us {
			if !ok(c) {
				return false
			}
		}
		return len(us) > 0
	}
	return ok(f)
}
