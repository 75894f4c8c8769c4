package main

import (
	"sort"
	"strings"
)

// P44: which way the price moves, and matching tick by tick until the book no
// longer crosses.

func ruleP44(w *World, r *R) {
	r.directionRule(w)
	r.sequenceRule(w)
}

// Classes of ticks relative to a price.
const (
	tickBetter = 1 << iota // more aggressive than the price
	tickAt
	tickWorse
)

// tickClasses are the classes the facts leave for a tick.
func (w *World) tickClasses(f *Facts, el *Term, sd string, price *Term) int {
	p := w.tickFld(el, "price")
	c := 0
	lower, higher := !f.contra(ltL(p, price, false)), !f.contra(ltL(price, p, false))
	if sd == "sells" {
		lower, higher = higher, lower
	}
	if higher {
		c |= tickBetter
	}
	if lower {
		c |= tickWorse
	}
	if !f.contra(eqL(p, price)) && !f.has(ltL(p, price, false)) && !f.has(ltL(price, p, false)) {
		c |= tickAt
	}
	if f.has(eqL(p, price)) {
		c = tickAt
	}
	return c
}

// tickSums reads the amounts of a side in an outcome: what its ticks better than
// the price and those at the price can match.
func (w *World) tickSums(u *Unit, ob *Term, sd string, price *Term) (over, at *Term, why string) {
	list := w.ticksOf(ob, sd)
	ss := scans(u, u.Events, list)
	if len(ss) == 0 {
		return nil, nil, "the ticks are not looked at"
	}
	sums := map[int]*Term{}
	atExit := map[*scan]*Term{}
	for _, s := range ss {
		tma := callT(nTMA, w.tickFld(s.el, "orders"), price)
		looped := 0
		for _, b := range s.bodies {
			looped |= w.tickClasses(b.Facts, s.el, sd, price)
		}
		exit := 0
		if !s.done(u.Facts) {
			exit = w.tickClasses(u.Facts, s.el, sd, price)
			if exit&tickBetter != 0 {
				why = "ticks better than the price may be left out"
				continue
			}
		}
		if looped&tickAt == 0 {
			switch {
			case exit == tickAt:
				atExit[s] = tma
			case exit&tickAt == 0:
				atExit[s] = ci(0)
			}
		}
		for _, m := range sortedMus(s.ev) {
			mi := s.ev.Mus[m]
			if mi.Init != ci(0) || len(mi.Backs) != len(s.bodies) {
				continue
			}
			set, ok := 0, true
			for i, b := range mi.Backs {
				if b.Val == nil {
					ok = false
					break
				}
				c := w.tickClasses(s.bodies[i].Facts, s.el, sd, price)
				d := linAdd(b.Val, m, -1, nil)
				switch {
				case d == tma, b.Val == tma && c == tickAt:
					set |= c
				case d == ci(0):
				default:
					ok = false
				}
			}
			for i, b := range mi.Backs {
				if c := w.tickClasses(s.bodies[i].Facts, s.el, sd, price); ok && linAdd(b.Val, m, -1, nil) == ci(0) && b.Val != tma {
					ok = c&set == 0
				}
			}
			if ok && set != 0 {
				// a class no tick of the loop is in adds nothing
				if looped&tickAt == 0 {
					set &^= tickAt
				}
				sums[set] = m
			}
		}
	}
	at = sums[tickAt]
	if at == nil {
		for _, s := range ss {
			if atExit[s] != nil {
				at = atExit[s]
			}
		}
	}
	over = sums[tickBetter]
	if over == nil && at != nil && sums[tickBetter|tickAt] != nil {
		over = linAdd(sums[tickBetter|tickAt], at, -1, nil)
	}
	if at == nil && over != nil && sums[tickBetter|tickAt] != nil {
		at = linAdd(sums[tickBetter|tickAt], over, -1, nil)
	}
	if over == nil && why == "" {
		why = "the amount better than the price is not added up"
	}
	if at == nil && why == "" {
		why = "the amount at the price is not known"
	}
	return over, at, why
}

func (r *R) directionRule(w *World) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "PriceDirection"), nTMA)
	at := "amm.PriceDirection"
	r.ob("DIRECTION", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, last := x.Args[0], x.Args[1]
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		p, f := u.Out.Pos, u.Facts
		bo, ba, why := w.tickSums(u, ob, "buys", last)
		so, sa, why2 := w.tickSums(u, ob, "sells", last)
		if !r.ob("DIRECTION-BUYS", at, p, bo != nil && ba != nil, "buys: %s", why) || !r.ob("DIRECTION-SELLS", at, p, so != nil && sa != nil, "sells: %s", why2) {
			continue
		}
		up := ltL(linAdd(sa, so, 1, nil), bo, false)
		down := ltL(linAdd(ba, bo, 1, nil), so, false)
		// all amounts are sums of open amounts
		nn := func(t *Term) Lit { return geL(t, ci(0), false) }
		for _, t := range []*Term{bo, ba, so, sa} {
			if l := nn(t); !f.contra(l) {
				f = f.with(l.a, l.p)
			}
		}
		switch u.Out.Vals[0] {
		case ci(2):
			r.ob("DIRECTION-UP", at, p, follows(f, up), "the price is taken to rise although buys above it do not exceed the sells")
		case ci(3):
			r.ob("DIRECTION-DOWN", at, p, follows(f, down), "the price is taken to fall although sells below it do not exceed the buys")
		default:
			r.ob("DIRECTION-STAYS", at, p, follows(f, up.not()) && follows(f, down.not()), "the price is taken to stay although one side outweighs the other")
		}
	}
	r.floor("DIRECTION-UP", 1)
	r.floor("DIRECTION-DOWN", 1)
	r.floor("DIRECTION-STAYS", 1)
}

// callsIn are the calls of a name mentioned in facts and terms.
func callsIn(f *Facts, ts []*Term, pick func(t *Term) bool) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	see := func(t *Term) bool {
		if pick(t) && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return false
	}
	for a := range f.m {
		a.contains(see)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	for _, t := range ts {
		t.contains(see)
	}
	return out
}

func (r *R) sequenceRule(w *World) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "Match"), "!"+nTick, "!"+nMASP, nTMA, nDir)
	at := "amm.Match"
	r.ob("SEQ", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, last := x.Args[0], x.Args[1]
	dir := callT(nDir, ob, last)
	buys, sells := w.ticksOf(ob, "buys"), w.ticksOf(ob, "sells")
	is := func(v int) Lit { return eqL(dir, ci(v)) }
	undirected := func(f *Facts) bool { return f.contra(is(1)) && f.contra(is(2)) && f.contra(is(3)) }
	for _, o := range x.Outs {
		r.ob("SEQ-PANIC", at, o.Pos, o.Kind != "panic" || anyPanic(o.Facts()) || undirected(o.Facts()), "matching may panic")
	}
	for _, u := range x.units() {
		if undirected(u.Facts) || u.Loop != nil {
			continue
		}
		f, p := u.Facts, u.Out.Pos
		var first *Event
		for _, ev := range u.Events {
			if ev.Kind == "call" && ev.Name == nMASP {
				first = ev
			}
		}
		if first == nil {
			empty := f.has(eqL(mkLen(buys), ci(0))) || f.has(eqL(mkLen(sells), ci(0)))
			r.ob("SEQ-NONE", at, p, empty, "nothing is matched although both sides have orders")
			continue
		}
		// the loop over pairs of ticks
		var loop *Event
		var bi, si *Term
		for _, ev := range u.Events {
			if ev.Kind != "loop" {
				continue
			}
			for _, b := range ev.Bodies {
				if undirected(b.Facts) {
					continue
				}
				for _, e := range b.Events {
					if e.Kind == "call" && e.Name == nTick && e.Args[0].Op == "elem" {
						switch e.Args[0].Args[0] {
						case buys:
							loop, bi = ev, e.Args[0].Args[1]
						case sells:
							loop, si = ev, e.Args[0].Args[1]
						}
					}
				}
			}
		}
		if !follows(f, notL(is(1))) {
			r.ob("SEQ-STAYS", at, p, follows(f, is(1)) && loop == nil, "ticks are matched one by one although the price stays, or not although it moves")
			continue
		}
		if loop == nil {
			// none of the best ticks cross
			b0, s0 := mkElem(buys, ci(0)), mkElem(sells, ci(0))
			r.ob("SEQ-MOVES", at, p, f.has(ltL(w.tickFld(b0, "price"), w.tickFld(s0, "price"), false)), "ticks are not matched one by one although the price moves")
			continue
		}
		mb, ms := loop.Mus[bi], loop.Mus[si]
		if !r.ob("SEQ-INDEX", at, loop.Pos, mb != nil && ms != nil && mb.Init == ci(0) && ms.Init == ci(0), "matching does not begin at the best tick of each side") {
			continue
		}
		bt, st := mkElem(buys, bi), mkElem(sells, si)
		bp, sp := w.tickFld(bt, "price"), w.tickFld(st, "price")
		for i, b := range loop.Bodies {
			if undirected(b.Facts) {
				continue
			}
			bf, pos := b.Facts, loop.Pos
			inRange := bf.has(ltL(bi, mkLen(buys), true)) && bf.has(ltL(si, mkLen(sells), true))
			r.ob("SEQ-RANGE", at, pos, inRange, "a tick beyond the last may be looked at")
			price := bp
			switch {
			case bf.contra(is(3)):
				price = sp
			case !bf.contra(is(2)):
				r.ob("SEQ-PRICE", at, pos, false, "the price of a round does not depend on the direction")
				continue
			}
			var fills []*Event
			for _, e := range b.Events {
				if e.Kind == "call" && e.Name == nTick {
					fills = append(fills, e)
					r.ob("SEQ-PRICE", at, e.Pos, bf.same(e.Args[2], price), "a round matches at %v, not at the price of the side being met", e.Args[2])
				}
			}
			var terms []*Term
			for _, e := range fills {
				terms = append(terms, e.Args...)
			}
			open := func(el *Term) []*Term {
				return callsIn(bf, terms, func(t *Term) bool {
					return t.Op == "call" && strings.HasPrefix(t.Name, nTMA) && len(t.Args) == 2 && t.Args[0] == w.tickFld(el, "orders") && bf.same(t.Args[1], price)
				})
			}
			any2 := func(as, bs []*Term, pred func(a, b *Term) bool) bool {
				for _, a := range as {
					for _, b := range bs {
						if pred(a, b) {
							return true
						}
					}
				}
				return false
			}
			zero := []*Term{ci(0)}
			ob1, os1 := open(bt), open(st)
			none := func(a, z *Term) bool { return bf.has(geL(z, a, false)) || bf.has(eqL(a, z)) }
			some := func(a, z *Term) bool { return bf.has(ltL(z, a, false)) }
			le := func(a, b *Term) bool { return bf.has(geL(b, a, false)) }
			gt := func(a, b *Term) bool { return bf.has(ltL(b, a, false)) }
			if len(fills) > 0 {
				r.ob("SEQ-AMOUNT", at, pos, any2(ob1, os1, func(a, b *Term) bool {
					for _, e := range fills {
						m := e.Args[1]
						if m == mkMinMax("min", []*Term{a, b}, m.Typ) || bf.same(m, a) && le(a, b) || bf.same(m, b) && le(b, a) {
							return true
						}
					}
					return false
				}), "the two ticks do not match as much as both can")
			}
			step := func(m *Term, mi *MuInfo) *Term {
				if mi.Backs[i].Val == nil {
					return nil
				}
				return linAdd(mi.Backs[i].Val, m, -1, nil)
			}
			db, ds := step(bi, mb), step(si, ms)
			check := func(d *Term, mine, theirs []*Term, sd string) {
				switch {
				case d == ci(1):
					spent := any2(mine, zero, none) || len(fills) > 0 && any2(mine, theirs, le)
					r.ob("SEQ-NEXT", at, pos, spent, "a tick of the %s that is not used up is left behind", sd)
				case d == ci(0):
					left := any2(mine, zero, some) && (len(fills) == 0 || any2(mine, theirs, gt))
					r.ob("SEQ-SAME", at, pos, left || len(fills) == 0 && ds != db, "a used up tick of the %s is looked at again", sd)
				default:
					r.ob("SEQ-NEXT", at, pos, false, "ticks of the %s are skipped", sd)
				}
			}
			check(db, ob1, os1, "buys")
			check(ds, os1, ob1, "sells")
			r.ob("SEQ-PROGRESS", at, pos, db != ci(0) || ds != ci(0), "a round leaves both sides where they are")
		}
		over := f.has(geL(bi, mkLen(buys), true)) || f.has(geL(si, mkLen(sells), true)) || f.has(ltL(bp, sp, false))
		r.ob("SEQ-END", at, p, over, "matching ends although the best ticks left cross")
	}
	r.floor("SEQ-NONE", 1)
	r.floor("SEQ-STAYS", 1)
	r.floor("SEQ-AMOUNT", 1)
	r.floor("SEQ-END", 1)
}
