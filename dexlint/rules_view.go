package main

import (
	"strings"
)

// P39: what the order book offers in total, and the first price of a pair.

const nViewT = "OrderBookView"

func (w *World) viewList(view *Term, name string) *Term {
	return w.fld(w.derefAs(view, nViewT), nViewT, name)
}

func (w *World) accFld(el *Term, name string) *Term { return w.fld(el, "amtAccSum", name) }

// cutoffs are the indices found in a list on this path.
func cutoffs(f *Facts, list *Term) []*Term {
	n := mkLen(list)
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "found" && t.Args[0] == n && !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for a := range f.m {
		walk(a)
	}
	return r
}

// cutAt: the first k entries of the list are those that satisfy in, as far as
// the two entries at the boundary tell.
func cutAt(f *Facts, list, k *Term, in func(el *Term) Lit) (bool, string) {
	n := mkLen(list)
	empty := f.has(eqL(k, ci(0)))
	if !empty {
		l := in(mkElem(list, linAdd(k, ci(1), -1, nil)))
		if !f.has(l) {
			return false, "the entry before the boundary need not belong to it"
		}
	}
	if !f.has(eqL(k, n)) && !f.has(eqL(n, ci(0))) {
		l := in(mkElem(list, k))
		if !f.has(Lit{l.a, !l.p}) {
			return false, "the entry at the boundary may still belong to it"
		}
	}
	return true, ""
}

// prefixAt: v is the accumulated sum of the entries that satisfy in.
func (w *World) prefixAt(o *Outcome, given Lit, list, v *Term, in func(el *Term) Lit) (bool, string) {
	f := o.Facts()
	why := "no boundary is looked for"
	for _, k := range cutoffs(f, list) {
		ok, y := cutAt(f, list, k, in)
		if !ok {
			why = y
			continue
		}
		if f.has(eqL(k, ci(0))) {
			if f.same(v, ci(0)) {
				return true, ""
			}
			why = "not zero when nothing belongs to it"
			continue
		}
		if v == w.accFld(mkElem(list, linAdd(k, ci(1), -1, nil)), "sum") {
			return true, ""
		}
		why = "not the accumulated sum at the boundary"
	}
	if f.has(eqL(mkLen(list), ci(0))) && v == ci(0) {
		return true, ""
	}
	return w.prefixByLoop(o, given, list, v, in, why)
}

// prefixByLoop: the same, walking along the list up to the first entry that
// does not belong.
func (w *World) prefixByLoop(o *Outcome, given Lit, list, v *Term, in func(el *Term) Lit, why string) (bool, string) {
	u := &Unit{Events: o.Events(), Facts: o.Facts(), Out: o}
	ev := muLoop(u, v)
	if ev == nil {
		return false, why
	}
	s := scanOf(u, ev, list)
	if s == nil || ev.Mus[v].Init != ci(0) {
		return false, why
	}
	for i, b := range ev.Mus[v].Backs {
		f := s.bodies[i].Facts.assume(given.a, given.p)
		if f == nil {
			continue
		}
		if b.Val != w.accFld(s.el, "sum") || !follows(f, in(s.el)) {
			return false, "goes on after an entry that does not belong, or keeps another sum"
		}
	}
	l := in(s.el)
	return s.done(o.Facts()) || follows(o.Facts(), Lit{l.a, !l.p}), "stops too early"
}

// follows: the comparison holds, also as not less and not equal.
func follows(f *Facts, l Lit) bool {
	if f.has(l) {
		return true
	}
	if l.a.Op != "lt" {
		return false
	}
	a, b := l.a.Args[0], l.a.Args[1]
	if l.p { // a < b
		return f.has(geL(b, a, false)) && f.has(neL(a, b))
	}
	return f.has(eqL(a, b)) // a >= b
}

func ruleP39(w *World, r *R) {
	w.viewAmounts(r)
	w.viewBest(r)
	w.viewMade(r)
	w.viewMatched(r)
	w.viewsTogether(r)
	w.firstPrice(r)
}

func (w *World) viewFn(r *R, rule, recv, name string, opaque ...string) (*FnRun, string) {
	at := strings.TrimPrefix(recv, "*") + "." + name
	fn := w.P.fn(pAmm, recv, name)
	if fn == nil && strings.HasPrefix(recv, "*") {
		fn = w.P.fn(pAmm, recv[1:], name)
	}
	if fn == nil {
		r.ob(rule, at, 0, false, "no such method")
		return &FnRun{}, at
	}
	x := w.run(fn, opaque...)
	r.ob(rule, at, fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s: %s", at, x.Err)
	return x, at
}

func (w *World) viewAmounts(r *R) {
	type m struct {
		name, list string
		// in (with the bound included or not): does an entry at price p belong
		// to the part before the boundary
		in   func(p, price *Term, incl bool) Lit
		rest bool // the amount is what comes after the boundary
	}
	ge := func(strict bool) func(p, price *Term) Lit {
		return func(p, price *Term) Lit {
			if strict {
				return ltL(price, p, false)
			}
			return geL(p, price, false)
		}
	}
	le := func(strict bool) func(p, price *Term) Lit {
		return func(p, price *Term) Lit {
			if strict {
				return ltL(p, price, false)
			}
			return geL(price, p, false)
		}
	}
	for _, c := range []m{
		{"BuyAmountOver", "buyAmtAccSums", func(p, q *Term, incl bool) Lit { return ge(!incl)(p, q) }, false},
		{"BuyAmountUnder", "buyAmtAccSums", func(p, q *Term, incl bool) Lit { return ge(incl)(p, q) }, true},
		{"SellAmountUnder", "sellAmtAccSums", func(p, q *Term, incl bool) Lit { return le(!incl)(p, q) }, false},
		{"SellAmountOver", "sellAmtAccSums", func(p, q *Term, incl bool) Lit { return le(incl)(p, q) }, true},
	} {
		x, at := w.viewFn(r, "AMOUNT", "*"+nViewT, c.name)
		for _, o := range x.rets() {
			f := o.Facts()
			list := w.viewList(x.Args[0], c.list)
			price, incl := x.Args[1], x.Args[2]
			v := o.Vals[0]
			for _, b := range []bool{true, false} {
				if f.contra(Lit{incl, b}) {
					continue
				}
				in := func(el *Term) Lit { return c.in(w.accFld(el, "price"), price, b) }
				if c.rest {
					// total - before the boundary
					total := w.accFld(mkElem(list, linAdd(mkLen(list), ci(1), -1, nil)), "sum")
					if f.has(eqL(mkLen(list), ci(0))) {
						r.ob("AMOUNT", at, o.Pos, v == ci(0), "the amount of an empty side is %v", v)
						continue
					}
					v2 := linAdd(total, v, -1, v.Typ)
					ok, why := w.prefixAt(o, Lit{incl, b}, list, v2, in)
					r.ob("AMOUNT", at, o.Pos, ok, "%s: %v under %s", why, v, factList(f))
					continue
				}
				ok, why := w.prefixAt(o, Lit{incl, b}, list, v, in)
				r.ob("AMOUNT", at, o.Pos, ok, "%s: %v under %s", why, v, factList(f))
			}
		}
	}
	r.floor("AMOUNT", 4)
}

// viewBest: the best price of a side is that of the first tick at which
// something is on offer.
func (w *World) viewBest(r *R) {
	for name, ln := range map[string]string{"HighestBuyPrice": "buyAmtAccSums", "LowestSellPrice": "sellAmtAccSums"} {
		x, at := w.viewFn(r, "BEST", "*"+nViewT, name)
		for _, o := range decided(x.rets(), 1) {
			f := o.f
			list := w.viewList(x.Args[0], ln)
			none := func(el *Term) Lit { return geL(ci(0), w.accFld(el, "sum"), false) }
			n := mkLen(list)
			ok, why := false, "no first entry is looked for"
			switch {
			case o.res == constBool(false):
				if f.has(eqL(n, ci(0))) {
					ok = true
				}
				for _, k := range cutoffs(f, list) {
					if c, _ := cutAt(f, list, k, none); c && f.has(geL(k, n, true)) {
						ok = true
					}
				}
				if u := (&Unit{Events: o.Events(), Facts: f, Out: o.Outcome}); !ok {
					for _, s := range scans(u, u.Events, list) {
						all := s.done(f)
						for _, b := range s.bodies {
							all = all && b.Facts.has(none(s.el))
						}
						ok = ok || all
					}
				}
				why = "there may be something on offer"
			case o.res == constBool(true):
				for _, k := range cutoffs(f, list) {
					c, y := cutAt(f, list, k, none)
					el := mkElem(list, k)
					l := none(el)
					why = y
					if c && f.has(Lit{l.a, !l.p}) {
						ok, why = o.Vals[0] == w.accFld(el, "price"), "not the price of that entry"
					}
				}
				if u := (&Unit{Events: o.Events(), Facts: f, Out: o.Outcome}); !ok {
					for _, s := range scans(u, u.Events, list) {
						l := none(s.el)
						all := f.has(Lit{l.a, !l.p}) && o.Vals[0] == w.accFld(s.el, "price")
						for _, b := range s.bodies {
							all = all && b.Facts.has(none(s.el))
						}
						ok = ok || all
					}
				}
			default:
				why = "whether it was found is unclear"
			}
			r.ob("BEST", at, o.Pos, ok, "%s: %v under %s", why, o.Vals, factList(f))
		}
	}
	r.floor("BEST", 4)
}

// viewMade: the entry of every tick holds its price and the matchable amount
// up to and including it.
func (w *World) viewMade(r *R) {
	x, at := w.viewFn(r, "SUMS", "*OrderBook", "MakeView", "!amm.TotalMatchableAmount")
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		res := w.objAt(u, u.Out.Vals[0], nViewT)
		for side, ln := range map[string]string{"buys": "buyAmtAccSums", "sells": "sellAmtAccSums"} {
			list := w.fld(res, nViewT, ln)
			ticks := w.ticksOf(x.Args[0], side)
			ok, why := w.accumulated(u, list, ticks)
			r.ob("SUMS", at+" "+side, u.Out.Pos, ok, "%s", why)
		}
	}
	r.floor("SUMS", 3)
}

// objAt is what a pointer points to at the end.
func (w *World) objAt(u *Unit, p *Term, typ string) *Term {
	if v := u.Out.St.mem[p]; v != nil {
		return v
	}
	return w.derefAs(p, typ)
}

func (w *World) accumulated(u *Unit, list, ticks *Term) (bool, string) {
	for _, s := range scans(u, u.Events, ticks) {
		if !s.done(u.Facts) {
			continue
		}
		// the amount of the tick at hand, as computed in a body
		tma := func(b *Unit) *Term {
			for _, e := range callEvents(b.Events, nTMA) {
				if e.Args[0] == w.tickFld(s.el, "orders") && e.Args[1] == w.tickFld(s.el, "price") {
					return e.Res
				}
			}
			return nil
		}
		running := func(b *Unit, i int, sum *Term) bool { // sum so far + this tick
			a := tma(b)
			if a == nil {
				return false
			}
			prev := linAdd(sum, a, -1, nil)
			if prev == ci(0) {
				return b.Facts.has(eqL(s.idx, ci(0)))
			}
			if mi := s.ev.Mus[prev]; mi != nil && mi.Init == ci(0) {
				for j, bk := range mi.Backs {
					aj := tma(s.bodies[j])
					if bk.Val == nil || aj == nil || bk.Val != linAdd(prev, aj, 1, nil) {
						return false
					}
				}
				return true
			}
			if prev.Op == "field" && prev.Name == "sum" && prev.Args[0].Op == "cell" && prev.Args[0].Args[0] == list {
				return linAdd(prev.Args[0].Args[1], s.idx, -1, nil) == ci(-1) && (b.Facts.has(neL(s.idx, ci(0))) || b.Facts.has(geL(s.idx, ci(1), true)))
			}
			return false
		}
		entry := func(b *Unit, i int, v *Term) bool {
			return w.accFld(v, "price") == w.tickFld(s.el, "price") && running(b, i, w.accFld(v, "sum"))
		}
		switch {
		case list.Op == "mkslice":
			if list.Args[0] != mkLen(ticks) {
				return false, "not one entry for every tick"
			}
			for i, b := range s.bodies {
				var last *Event
				for _, e := range b.Events {
					if e.Kind == "cellset" && e.Args[0] == list {
						if e.Args[1] != s.idx {
							return false, "an entry is written out of place"
						}
						last = e
					}
				}
				if last == nil || !entry(b, i, last.Args[2]) {
					return false, "the entry of a tick is not its price and the amount up to it"
				}
			}
			if other := w.otherCells(u, s.ev, list); other != "" {
				return false, other
			}
			return true, ""
		case s.ev.Mus[list] != nil:
			mi := s.ev.Mus[list]
			if !emptyList(mi.Init) {
				return false, "does not start empty"
			}
			for i, b := range mi.Backs {
				if b.Val == nil || b.Val.Op != "append" || b.Val.Name == "all" || len(b.Val.Args) != 2 || b.Val.Args[0] != list || !entry(s.bodies[i], i, b.Val.Args[1]) {
					return false, "the entry of a tick is not its price and the amount up to it"
				}
			}
			return true, ""
		}
	}
	return false, "the ticks are not gone through to the end"
}

func emptyList(t *Term) bool {
	if t == nil {
		return false
	}
	return t.Op == "nil" || t.Op == "zero" || t.Op == "list" && len(t.Args) == 0 || t.Op == "mkslice" && t.Args[0] == ci(0)
}

// otherCells: elements of the list written elsewhere than in this loop.
func (w *World) otherCells(u *Unit, loop *Event, list *Term) string {
	for _, e := range u.Events {
		if e == loop {
			continue
		}
		for _, x := range allEvents([]*Event{e}) {
			if x.Kind == "cellset" && x.Args[0] == list {
				return "entries are written elsewhere as well"
			}
		}
	}
	return ""
}

// viewMatched: what is left of each side after the orders that match at a
// single price: nothing before the boundary, the matched amount less after it.
func (w *World) viewMatched(r *R) {
	nBAO, nSAU := "OrderBookView).BuyAmountOver", "OrderBookView).SellAmountUnder"
	x, at := w.viewFn(r, "LEFT", "*"+nViewT, "Match", nBAO, nSAU)
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		f := u.Facts
		view := x.Args[0]
		buys, sells := w.viewList(view, "buyAmtAccSums"), w.viewList(view, "sellAmtAccSums")
		changed := false
		for _, e := range allEvents(u.Events) {
			changed = changed || e.Kind == "cellset"
		}
		amt := func(side string, p *Term) *Term {
			n := "(*" + pAmm + "." + nViewT + ")."
			return callT(n+side, view, p, constBool(true))
		}
		// an entry before the boundary: the other side offers at least as much
		inB := func(el *Term) Lit {
			p := w.accFld(el, "price")
			return geL(amt("SellAmountUnder", p), amt("BuyAmountOver", p), false)
		}
		inS := func(el *Term) Lit {
			p := w.accFld(el, "price")
			return geL(amt("BuyAmountOver", p), amt("SellAmountUnder", p), false)
		}
		cut := func(list *Term, in func(*Term) Lit) *Term {
			for _, k := range cutoffs(f, list) {
				if ok, _ := cutAt(f, list, k, in); ok {
					return k
				}
			}
			return nil
		}
		bi, si := cut(buys, inB), cut(sells, inS)
		if !changed {
			same := w.viewList(view, "buyAmtAccSums") == w.fld(w.objAt(u, view, nViewT), nViewT, "buyAmtAccSums")
			ok := f.has(eqL(mkLen(buys), ci(0))) || f.has(eqL(mkLen(sells), ci(0)))
			if bi != nil && si != nil && f.has(eqL(bi, mkLen(buys))) && f.has(eqL(si, mkLen(sells))) {
				ok = true
			}
			r.ob("LEFT", at, u.Out.Pos, ok && same, "nothing is taken off under %s", factList(f))
			continue
		}
		if !r.ob("LEFT", at, u.Out.Pos, bi != nil && si != nil, "the boundaries are not where one side has more than the other, under %s", factList(f)) {
			continue
		}
		// the amount matched
		sumAt := func(list, k *Term) *Term {
			if f.has(eqL(k, ci(0))) {
				return ci(0)
			}
			return w.accFld(mkElem(list, linAdd(k, ci(1), -1, nil)), "sum")
		}
		a, b := sumAt(buys, bi), sumAt(sells, si)
		var wants []*Term
		switch {
		case a == b:
			wants = []*Term{a}
		case a == ci(0):
			wants = []*Term{b, mkMinMax("max", []*Term{a, b}, nil)}
		case b == ci(0):
			wants = []*Term{a, mkMinMax("max", []*Term{a, b}, nil)}
		default:
			wants = []*Term{mkMinMax("max", []*Term{a, b}, nil)}
			if f.has(geL(a, b, false)) {
				wants = append(wants, a)
			}
			if f.has(geL(b, a, false)) {
				wants = append(wants, b)
			}
		}
		for _, sd := range []struct {
			list, k *Term
			name    string
		}{{buys, bi, "buys"}, {sells, si, "sells"}} {
			n := 0
			for _, s := range scans(u, u.Events, sd.list) {
				any := false
				for _, b := range s.bodies {
					f := b.Facts
					var last *Event
					for _, e := range allEvents(b.Events) {
						if e.Kind == "cellset" {
							r.ob("LEFT", at+" "+sd.name, u.Out.Pos, e.Args[0] == sd.list && e.Args[1] == s.idx, "another entry is changed: %v %v", e.Args[0], e.Args[1])
							last, any = e, true
						}
					}
					if last == nil && !any {
						continue
					}
					v := s.el
					if last != nil {
						v = last.Args[2]
					}
					sum := w.accFld(v, "sum")
					ok := w.accFld(v, "price") == w.accFld(s.el, "price")
					before, after := f.has(ltL(s.idx, sd.k, true)), f.has(geL(s.idx, sd.k, true))
					switch {
					case before:
						ok = ok && sum == ci(0)
					case after:
						m := false
						for _, want := range wants {
							m = m || linSame(f, sum, linAdd(w.accFld(s.el, "sum"), want, -1, nil))
						}
						ok = ok && m
					default:
						ok = false
					}
					r.ob("LEFT", at+" "+sd.name, u.Out.Pos, ok, "an entry becomes %v under %s", v, factList(f))
				}
				if any {
					n++
					r.ob("LEFT", at+" "+sd.name, u.Out.Pos, s.done(f), "not all entries are changed")
				}
			}
			r.ob("LEFT", at+" "+sd.name, u.Out.Pos, n == 1, "the side is changed %d times", n)
		}
	}
	r.floor("LEFT", 10)
}

// viewsTogether: several sources add up, and the best of them is the best.
func (w *World) viewsTogether(r *R) {
	recv := "MultipleOrderViews"
	for _, name := range []string{"BuyAmountOver", "SellAmountUnder"} {
		x, at := w.viewFn(r, "TOGETHER", recv, name)
		for _, u := range x.units() {
			if u.Loop != nil {
				continue
			}
			ok := false
			v := u.Out.Vals[0]
			for _, s := range scans(u, u.Events, x.Args[0]) {
				mi := s.ev.Mus[v]
				if mi == nil || mi.Init != ci(0) || !s.done(u.Facts) {
					continue
				}
				ok = true
				for i, b := range mi.Backs {
					one := false
					for _, e := range s.bodies[i].Events {
						if e.Kind == "invoke" && e.Name == pAmm+".OrderView."+name && e.Args[0] == s.el && e.Args[1] == x.Args[1] && e.Args[2] == x.Args[2] {
							one = one || b.Val != nil && linAdd(b.Val, v, -1, nil) == e.Res
						}
					}
					ok = ok && one
				}
			}
			r.ob("TOGETHER", at, u.Out.Pos, ok, "the amounts are not added up: %v", v)
		}
	}
	for name, more := range map[string]bool{"HighestBuyPrice": true, "LowestSellPrice": false} {
		x, at := w.viewFn(r, "TOGETHER", recv, name)
		for _, u := range x.units() {
			if u.Loop != nil {
				continue
			}
			price, found := u.Out.Vals[0], u.Out.Vals[1]
			dec := x.Fn.Signature.Results().At(0).Type()
			pm := price // the part of the price that the loop carries
			if price.Op == "struct" {
				pm = mkField(price, dec, 0)
			}
			ok, why := false, "the sources are not gone through to the end"
			for _, s := range scans(u, u.Events, x.Args[0]) {
				pi, fi := s.ev.Mus[pm], s.ev.Mus[found]
				if pi == nil || fi == nil || !s.done(u.Facts) {
					continue
				}
				ok = fi.Init == constBool(false)
				for i := range s.bodies {
					f := s.bodies[i].Facts
					var p, has *Term
					for _, e := range s.bodies[i].Events {
						if e.Kind == "invoke" && e.Name == pAmm+".OrderView."+name && e.Args[0] == s.el {
							p, has = proj(e.Res, 0), proj(e.Res, 1)
						}
					}
					if p == nil {
						ok, why = false, "a source is not asked"
						break
					}
					pv, fv := pi.Backs[i].Val, fi.Backs[i].Val
					np := p
					if pm != price {
						np = mkField(p, dec, 0)
					}
					kept := pv == pm && fv == found
					taken := pv == np && fv != nil && (fv == constBool(true) || fv == has && f.has(Lit{has, true}))
					none := f.has(Lit{callT(mathDec+".IsNil", price), true}) || f.has(Lit{found, false})
					some := f.has(Lit{callT(mathDec+".IsNil", price), false}) || f.has(Lit{found, true})
					better, notBetter := ltL(price, p, false), geL(price, p, false)
					notWorse := geL(p, price, false)
					if !more {
						better, notBetter = ltL(p, price, false), geL(p, price, false)
						notWorse = geL(price, p, false)
					}
					good := false
					switch {
					case f.has(Lit{has, false}):
						good = kept
					case f.has(Lit{has, true}) && taken:
						good = none || f.has(better) || f.has(notWorse)
					case f.has(Lit{has, true}) && kept:
						good = some && f.has(notBetter)
					}
					if !good {
						ok, why = false, "a source's price is kept or dropped wrongly under "+factList(f)
						break
					}
				}
			}
			r.ob("TOGETHER", at, u.Out.Pos, ok, "%s", why)
		}
	}
	r.floor("TOGETHER", 8)
}

// firstPrice: see the statement.
func (w *World) firstPrice(r *R) {
	x, at := w.viewFn(r, "FIRST", "", "FindMatchPrice", "amm.TickFromIndex", "amm.TickToIndex", "amm.HighestTick", "amm.LowestTick", "amm.RoundPrice")
	if len(x.Args) == 0 {
		return
	}
	ov, prec := x.Args[0], x.Args[1]
	low := callT(pAmm+".TickToIndex", callT(pAmm+".LowestTick", prec), prec)
	high := callT(pAmm+".TickToIndex", callT(pAmm+".HighestTick", prec), prec)
	nFrom := pAmm + ".TickFromIndex"
	from := func(i *Term) *Term { return callT(nFrom, i, prec) }
	n := 0
	tickIdx := func(t *Term) bool {
		return t == low || t == high || t.Op == "found"
	}
	for _, o := range x.Outs {
		f := o.Facts()
		if noSuchInts(f, tickIdx, linAdd(linAdd(low, high, -1, nil), ci(1), 1, nil)) {
			continue // the lowest tick is below the highest
		}
		if o.Kind != "ret" {
			r.ob("FIRST", at, o.Pos, false, "panics under %s", factList(f))
			continue
		}
		inv := map[string][]*Event{}
		for _, e := range o.Events() {
			if e.Kind == "invoke" && e.Args[0] == ov {
				k := strings.TrimPrefix(e.Name, pAmm+".OrderView.")
				inv[k] = append(inv[k], e)
			}
		}
		amts := func(kind string, i *Term) []*Term {
			var rs []*Term
			for _, e := range inv[kind] {
				if e.Args[1] == from(i) && e.Args[2] == constBool(true) {
					rs = append(rs, e.Res)
				}
			}
			return rs
		}
		plus := func(i *Term, d int64) *Term { return linAdd(i, constInt(d), 1, nil) }
		// at i, own > 0 and other at i+d is not above own
		cond := func(own, other string, i *Term, d int64) bool {
			for _, a := range amts(own, i) {
				for _, b := range amts(other, plus(i, d)) {
					if f.has(ltL(ci(0), a, false)) && f.has(geL(a, b, false)) {
						return true
					}
				}
			}
			return false
		}
		notCond := func(own, other string, i *Term, d int64) bool {
			for _, a := range amts(own, i) {
				if f.has(geL(ci(0), a, false)) {
					return true
				}
				for _, b := range amts(other, plus(i, d)) {
					if f.has(ltL(a, b, false)) {
						return true
					}
				}
			}
			return false
		}
		const S, B = "SellAmountUnder", "BuyAmountOver"
		same := func(a, b *Term) bool { return linSame(f, a, b) }
		if o.Vals[1] == constBool(true) {
			n++
			v := o.Vals[0]
			ok := v.Op == "call" && v.Name == pAmm+".RoundPrice" && v.Args[1] == prec
			if !r.ob("FIRST", at, o.Pos, ok, "the price is not rounded to a tick: %v", v) {
				continue
			}
			// the two ticks whose mean it is
			var idx []*Term
			seen := map[*Term]bool{}
			var walk func(t *Term)
			walk = func(t *Term) {
				if t.Op == "call" && t.Name == nFrom {
					if !seen[t] {
						seen[t] = true
						idx = append(idx, t.Args[0])
					}
					return
				}
				for _, a := range t.Args {
					walk(a)
				}
			}
			walk(v.Args[0])
			ok = false
			why := "not the mean of two ticks"
			for _, i := range idx {
				for _, j := range idx {
					if v.Args[0] != callT(mathDec+".QuoInt64", linAdd(from(i), from(j), 1, nil), ci(2)) {
						continue
					}
					switch {
					case !cond(S, B, i, 1):
						why = "at the first tick sells need not cover the buys above it"
					case !(same(i, low) || notCond(S, B, plus(i, -1), 1)):
						why = "a lower first tick may do"
					case !cond(B, S, j, -1):
						why = "at the second tick buys need not cover the sells below it"
					case !(same(j, high) || notCond(B, S, plus(j, 1), -1)):
						why = "a higher second tick may do"
					default:
						ok = true
					}
				}
			}
			hb, ls := inv["HighestBuyPrice"], inv["LowestSellPrice"]
			if ok && !(len(hb) > 0 && len(ls) > 0 && f.has(geL(proj(hb[0].Res, 0), proj(ls[0].Res, 0), false)) && f.has(Lit{proj(hb[0].Res, 1), true}) && f.has(Lit{proj(ls[0].Res, 1), true})) {
				ok, why = false, "the best buy price need not reach the best sell price"
			}
			r.ob("FIRST", at, o.Pos, ok, "%s: %v under %s", why, v, factList(f))
			continue
		}
		ok := o.Vals[1] == constBool(false)
		if ok {
			ok = false
			for _, e := range inv["HighestBuyPrice"] {
				ok = ok || f.has(Lit{proj(e.Res, 1), false})
				for _, e2 := range inv["LowestSellPrice"] {
					ok = ok || f.has(ltL(proj(e.Res, 0), proj(e2.Res, 0), false))
				}
			}
			for _, e := range inv["LowestSellPrice"] {
				ok = ok || f.has(Lit{proj(e.Res, 1), false})
			}
			for _, e := range inv[S] { // no tick up to the highest does
				if e.Args[1].Op != "call" || e.Args[1].Name != nFrom {
					continue
				}
				i := e.Args[1].Args[0]
				ok = ok || notCond(S, B, i, 1) && (f.has(ltL(high, plus(i, 1), true)) || f.has(geL(i, high, true)))
			}
			for _, e := range inv[B] {
				if e.Args[1].Op != "call" || e.Args[1].Name != nFrom {
					continue
				}
				i := e.Args[1].Args[0]
				ok = ok || notCond(B, S, i, -1) && (f.has(ltL(plus(i, -1), low, true)) || f.has(geL(low, i, true)))
			}
		}
		r.ob("FIRST", at, o.Pos, ok, "no price is found under %s", factList(f))
	}
	r.floor("FIRST", 6)
	r.ob("FIRST", at, x.Fn.Pos(), n > 0, "never finds a price")
}

// noSuchInts: what is known about these integers contradicts itself. Each
// given term is at most zero as well.
func noSuchInts(f *Facts, isInt func(*Term) bool, more ...*Term) bool {
	cs := append([]*Term(nil), more...)
	ints := func(t *Term) bool {
		for a := range toLin(t).co {
			if !isInt(a) {
				return false
			}
		}
		return true
	}
	for a, v := range f.m {
		if a.Op != "lt" && !(a.Op == "eq" && v) || len(a.Args) != 2 || !ints(a.Args[0]) || !ints(a.Args[1]) {
			continue
		}
		d := linAdd(a.Args[0], a.Args[1], -1, nil)
		switch {
		case a.Op == "eq":
			cs = append(cs, d, linNeg(d, nil))
		case v:
			cs = append(cs, linAdd(d, ci(1), 1, nil))
		default:
			cs = append(cs, linNeg(d, nil))
		}
	}
	bad := func(t *Term) bool {
		n, ok := t.intVal()
		return ok && n.Sign() > 0
	}
	for i, a := range cs {
		if bad(a) {
			return true
		}
		for j, b := range cs[i:] {
			ab := linAdd(a, b, 1, nil)
			if bad(ab) {
				return true
			}
			for _, c := range cs[i+j:] {
				if bad(linAdd(ab, c, 1, nil)) {
					return true
				}
			}
		}
	}
	return false
}
