package main

import "go/types"

// P42: the order book answer of a pair: what is on offer, level by level.

const nBookTick = "OrderBookTickResponse"

func ruleP42(w *World, r *R) {
	w.basePrice(r)
	w.fitPrice(r)
	w.displayed(r)
}

func (w *World) typesRun(r *R, rule, name string, opaque ...string) *FnRun {
	fn := w.P.fn(pTypes, "", name)
	if fn == nil {
		r.ob(rule, name, 0, false, "no such function")
		return &FnRun{}
	}
	x := w.run(fn, opaque...)
	r.ob(rule, name, fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s: %s", name, x.Err)
	for _, o := range x.Outs {
		if o.Kind != "ret" {
			r.ob(rule, name, o.Pos, false, "panics under %s", factList(o.Facts()))
		}
	}
	return x
}

// decidedOut is an outcome with the i-th result known to be true or false.
type decidedOut struct {
	*Outcome
	f   *Facts
	res *Term
}

func decided(os []*Outcome, i int) []decidedOut {
	var r []decidedOut
	for _, o := range os {
		v := o.Vals[i]
		if v.Op == "bool" {
			r = append(r, decidedOut{o, o.Facts(), v})
			continue
		}
		a, pol := litOf(v)
		for _, b := range []bool{true, false} {
			if f := o.Facts().assume(a, pol == b); f != nil {
				r = append(r, decidedOut{o, f, constBool(b)})
			}
		}
	}
	return r
}

// basePrice: the middle of the best prices rounded to a tick, or the only one.
func (w *World) basePrice(r *R) {
	x := w.typesRun(r, "BASE", "OrderBookBasePrice", "amm.RoundPrice")
	for _, o := range decided(x.rets(), 1) {
		f := o.f
		var hb, ls *Term
		for _, e := range o.Events() {
			switch {
			case e.Kind == "invoke" && e.Name == pAmm+".OrderView.HighestBuyPrice" && e.Args[0] == x.Args[0]:
				hb = e.Res
			case e.Kind == "invoke" && e.Name == pAmm+".OrderView.LowestSellPrice" && e.Args[0] == x.Args[0]:
				ls = e.Res
			}
		}
		if !r.ob("BASE", "OrderBookBasePrice", o.Pos, hb != nil && ls != nil, "the best prices are not asked for") {
			continue
		}
		has := func(t *Term, v bool) bool { return f.has(Lit{proj(t, 1), v}) }
		v, ok := o.Vals[0], false
		switch o.res {
		case constBool(false):
			ok = has(hb, false) && has(ls, false)
		case constBool(true):
			switch {
			case has(hb, true) && has(ls, true):
				sum := linAdd(proj(hb, 0), proj(ls, 0), 1, nil)
				ok = v == callT(pAmm+".RoundPrice", callT(mathDec+".QuoInt64", sum, ci(2)), x.Args[1])
			case has(hb, true) && has(ls, false):
				ok = v == proj(hb, 0)
			case has(hb, false) && has(ls, true):
				ok = v == proj(ls, 0)
			}
		}
		r.ob("BASE", "OrderBookBasePrice", o.Pos, ok, "the base price is %v under %s", v, factList(f))
	}
	r.floor("BASE", 5)
}

// fitPrice: a multiple of the gap, the nearest one in the direction asked for.
func (w *World) fitPrice(r *R) {
	x := w.typesRun(r, "FIT", "FitPriceToTickGap")
	if len(x.Args) == 0 {
		return
	}
	price, gap, down := x.Args[0], x.Args[1], x.Args[2]
	fit := fromRaw(callT(mathInt+".Mul", sort2(rawOf(gap), callT(mathInt+".Quo", rawOf(price), rawOf(gap)))...))
	for _, o := range x.rets() {
		f, v := o.Facts(), o.Vals[0]
		for _, d := range []bool{true, false} {
			if f.contra(Lit{down, d}) {
				continue
			}
			ok := v == fit && (d || f.has(eqL(fit, price))) ||
				v == linAdd(fit, gap, 1, nil) && !d && f.has(neL(fit, price)) ||
				v == price && f.has(eqL(fit, price))
			r.ob("FIT", "FitPriceToTickGap", o.Pos, ok, "gives %v under %s", v, factList(f))
		}
	}
	r.floor("FIT", 4)
}

func (w *World) displayed(r *R) {
	at := "MakeOrderBookPairResponse"
	recv := "(*" + pAmm + "." + nViewT + ")."
	x := w.typesRun(r, "BOOKS", at, "OrderBookBasePrice", "FitPriceToTickGap", "amm.TickPrecision).TickGap", "amm.TickPrecision).UpTick",
		nViewT+").BuyAmountOver", nViewT+").SellAmountUnder", nViewT+").BuyAmountUnder", nViewT+").SellAmountOver", nViewT+").HighestBuyPrice", nViewT+").LowestSellPrice")
	if len(x.Args) == 0 {
		return
	}
	pairID, ov, lowest, highest, prec, configs := x.Args[0], x.Args[1], x.Args[2], x.Args[3], x.Args[4], x.Args[5]
	base := callT(pTypes+".OrderBookBasePrice", mk("iface", pAmm+"."+nViewT, nil, ov), prec)
	hb, ls := callT(recv+"HighestBuyPrice", ov), callT(recv+"LowestSellPrice", ov)
	respT, bookT, tickT := w.P.namedType(pTypes, "OrderBookPairResponse"), w.P.namedType(pTypes, "OrderBookResponse"), w.P.namedType(pTypes, nBookTick)
	cfgT := w.P.namedType(pTypes, "OrderBookConfig")
	get := func(v *Term, t types.Type, name string) *Term { return mkField(v, t, fieldIdx(t, name)) }
	isBase := func(t *Term, i int) bool {
		return t != nil && t.Op == "res" && t.Args[0].Op == "call" && t.Args[0].Name == base.Name && t.Name == proj(base, i).Name
	}
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		f, v := u.Facts, u.Out.Vals[0]
		r.ob("BOOKS", at, u.Out.Pos, get(v, respT, "PairId") == pairID, "the pair id is %v", get(v, respT, "PairId"))
		books := get(v, respT, "OrderBooks")
		none := false
		for a, b := range f.m {
			none = none || isBase(a, 1) && !b
		}
		if none {
			r.ob("BOOKS", at, u.Out.Pos, emptyList(books), "something is shown of an empty book: %v", books)
			continue
		}
		r.ob("BOOKS", at, u.Out.Pos, isBase(get(v, respT, "BasePrice"), 0), "the base price is %v", get(v, respT, "BasePrice"))
		// one book for every configuration
		list := configs
		var s *scan
		for _, c := range scans(u, u.Events, list) {
			if c.ev.Mus[books] != nil {
				s = c
			}
		}
		if !r.ob("BOOKS", at, u.Out.Pos, s != nil && s.done(f) && emptyList(s.ev.Mus[books].Init), "there is not one book for every configuration: %v", books) {
			continue
		}
		// the smallest unit: the tick gap at the best buy price, or where as many
		// sell levels as asked for end
		small := func(t *Term) bool {
			if t.Op != "call" || t.Name != "("+pAmm+".TickPrecision).TickGap" && t.Name != pAmm+".TickGap" {
				return false
			}
			var p *Term
			for _, a := range t.Args {
				if a != prec {
					p = a
				}
			}
			if f.has(Lit{proj(ls, 1), false}) {
				return p == proj(hb, 0)
			}
			ev := muLoop(u, p)
			if ev == nil || !f.has(Lit{proj(ls, 1), true}) || ev.Mus[p].Init != proj(ls, 0) {
				return p == proj(ls, 0) && f.has(Lit{proj(ls, 1), true})
			}
			for _, b := range ev.Mus[p].Backs {
				up := b.Val != nil && b.Val.Op == "call" && (b.Val.Name == "("+pAmm+".TickPrecision).UpTick" || b.Val.Name == nUpStep) && indexTerm(b.Val.Args, p) >= 0
				if !up || !b.Facts.has(geL(highest, p, false)) || !b.Facts.has(ltL(ci(0), callT(recv+"SellAmountOver", ov, p, constBool(false)), false)) {
					return false
				}
			}
			return true
		}
		for i, b := range s.ev.Mus[books].Backs {
			body := s.bodies[i]
			bv := b.Val
			ok := bv != nil && bv.Op == "append" && bv.Name != "all" && len(bv.Args) == 2 && bv.Args[0] == books
			if !r.ob("BOOKS", at, u.Out.Pos, ok, "a configuration gives %v", bv) {
				continue
			}
			bk := bv.Args[1]
			unit := get(bk, bookT, "PriceUnit")
			for _, sd := range []struct {
				name, over, rest string
				best             *Term
				bound            func(p *Term) Lit
				sign             int64
			}{
				{"Sells", "SellAmountUnder", "SellAmountOver", ls, func(p *Term) Lit { return geL(highest, p, false) }, 1},
				{"Buys", "BuyAmountOver", "BuyAmountUnder", hb, func(p *Term) Lit { return geL(p, lowest, false) }, -1},
			} {
				w.shownSide(r, at+" "+sd.name, body, get(bk, bookT, sd.name), shownSpec{
					unit: unit, best: sd.best, down: sd.sign < 0, sign: sd.sign, bound: sd.bound,
					upTo:  func(p *Term) *Term { return callT(recv+sd.over, ov, p, constBool(true)) },
					rest:  func(p *Term) *Term { return callT(recv+sd.rest, ov, p, constBool(false)) },
					max:   get(s.el, cfgT, "MaxNumTicks"),
					price: func(e *Term) *Term { return get(e, tickT, "Price") },
					user:  func(e *Term) *Term { return get(e, tickT, "UserOrderAmount") },
					pool:  func(e *Term) *Term { return get(e, tickT, "PoolOrderAmount") },
				})
			}
			w.unitOf(r, at, body, unit, get(s.el, cfgT, "PriceUnitPower"), small)
		}
	}
	r.floor("BOOKS", 5)
	r.floor("SHOWN", 8)
	r.floor("UNIT", 2)
}

type shownSpec struct {
	unit, best, max   *Term
	down              bool
	sign              int64
	bound             func(p *Term) Lit
	upTo, rest        func(p *Term) *Term
	price, user, pool func(e *Term) *Term
}

// shownSide: level by level, every level with something that was not shown
// before is shown with exactly that.
func (w *World) shownSide(r *R, at string, body *Unit, list *Term, sp shownSpec) {
	f := body.Facts
	if f.has(Lit{proj(sp.best, 1), false}) {
		r.ob("SHOWN", at, body.Loop.Pos, emptyList(list), "%v is shown of an empty side", list)
		return
	}
	if !r.ob("SHOWN", at, body.Loop.Pos, f.has(Lit{proj(sp.best, 1), true}), "it is not known whether there is anything to show") {
		return
	}
	// the last round may have left the loop after showing a level
	m, last := list, (*Term)(nil)
	if muLoop(body, m) == nil && m.Op == "append" && m.Name != "all" && len(m.Args) == 2 {
		m, last = m.Args[0], m.Args[1]
	}
	ev := muLoop(body, m)
	if !r.ob("SHOWN", at, body.Loop.Pos, ev != nil && emptyList(ev.Mus[m].Init), "the levels shown are %v", list) {
		return
	}
	// the price that moves and the amount shown so far
	var p, acc, cnt *Term
	for mu, mi := range ev.Mus {
		switch {
		case mi.Init == callT(pTypes+".FitPriceToTickGap", proj(sp.best, 0), sp.unit, constBool(sp.down)):
			p = mu
		}
	}
	if !r.ob("SHOWN", at, ev.Pos, p != nil, "the levels do not start at the best price") {
		return
	}
	total := sp.upTo(p)
	for mu, mi := range ev.Mus {
		if mu == p || mi.Init != ci(0) {
			continue
		}
		for _, b := range mi.Backs {
			if b.Val == total || b.Val != nil && linSame(b.Facts, b.Val, total) {
				acc = mu
			}
			if b.Val == linAdd(mu, ci(1), 1, nil) {
				cnt = mu
			}
		}
	}
	if !r.ob("SHOWN", at, ev.Pos, acc != nil, "what was shown before is not kept") {
		return
	}
	amt := linAdd(total, acc, -1, nil)
	some, nothing := []Lit{ltL(ci(0), amt, false), ltL(acc, total, false)}, []Lit{geL(ci(0), amt, false), geL(acc, total, false)}
	any := func(f *Facts, ls []Lit) bool {
		for _, l := range ls {
			if f.has(l) {
				return true
			}
		}
		return false
	}
	goodLevel := func(e *Term) bool {
		return sp.price(e) == p && sp.user(e) == amt && sp.pool(e) == ci(0)
	}
	more := ltL(ci(0), sp.rest(p), false)
	for i, b := range ev.Mus[m].Backs {
		bf := b.Facts
		shown := b.Val != nil && b.Val.Op == "append" && b.Val.Name != "all" && len(b.Val.Args) == 2 && b.Val.Args[0] == m
		ok, why := false, "not decided by what is new at the level"
		accV, pV := ev.Mus[acc].Backs[i].Val, ev.Mus[p].Backs[i].Val
		switch {
		case shown && any(bf, some):
			ok, why = goodLevel(b.Val.Args[1]) && accV == total, "the wrong price or amount"
			if ok && cnt != nil && ev.Mus[cnt].Backs[i].Val != linAdd(cnt, ci(1), 1, nil) {
				ok, why = false, "the level is not counted"
			}
		case b.Val == m && any(bf, nothing):
			ok, why = accV == acc, "an amount is counted that is not shown"
			if ok && cnt != nil && ev.Mus[cnt].Backs[i].Val != cnt {
				ok, why = false, "a level is counted that is not shown"
			}
		}
		if ok && pV != linAdd(p, sp.unit, sp.sign, nil) {
			ok, why = false, "the price does not move by one unit"
		}
		if ok && !bf.has(sp.bound(p)) {
			ok, why = false, "the price may be beyond the limit"
		}
		if ok && !bf.has(ltL(mkLen(m), sp.max, true)) && (cnt == nil || !bf.has(ltL(cnt, sp.max, true))) {
			ok, why = false, "more levels than asked for may be shown"
		}
		if ok && !bf.has(more) {
			ok, why = false, "it goes on with nothing left"
		}
		r.ob("SHOWN", at, ev.Pos, ok, "%s: %v under %s", why, b.Val, factList(bf))
	}
	// how it stops
	bl := sp.bound(p)
	full := false
	if cnt != nil {
		full = f.has(geL(cnt, sp.max, true))
	} else {
		full = f.has(geL(mkLen(m), sp.max, true))
	}
	out := f.has(Lit{bl.a, !bl.p}) || f.has(ltL(p, ci(0), false)) && sp.sign < 0
	end := f.has(Lit{more.a, !more.p})
	ok, why := false, "stops for no reason"
	switch {
	case last == nil && (full || out):
		ok = true
	case last == nil && end:
		ok, why = any(f, nothing), "the last level is left out"
	case last != nil && end:
		ok, why = goodLevel(last) && any(f, some), "the last level has the wrong price or amount"
	}
	r.ob("SHOWN", at, ev.Pos, ok, "%s under %s", why, factList(f))
}

// unitOf: the unit is the smallest unit times ten to the power asked for.
func (w *World) unitOf(r *R, at string, body *Unit, unit, power *Term, small func(*Term) bool) {
	ev := muLoop(body, unit)
	ok, why := false, "it is not multiplied by ten as often as asked"
	if ev != nil {
		mi := ev.Mus[unit]
		ok = mi.Init != nil && small(mi.Init)
		ten := linMul(unit, 10)
		for _, b := range mi.Backs {
			ok = ok && b.Val != nil && (b.Val == ten || b.Val == callT(mathDec+".MulInt64", unit, ci(10)) || b.Val == callT(mathDec+".MulInt", unit, ci(10)))
		}
		counted := false
		for mu, mi := range ev.Mus {
			if mu == unit || mi.Init != ci(0) || !body.Facts.has(geL(mu, power, true)) {
				continue
			}
			steps := true
			for _, b := range mi.Backs {
				steps = steps && b.Val == linAdd(mu, ci(1), 1, nil) && b.Facts.has(ltL(mu, power, true))
			}
			counted = counted || steps
		}
		ok = ok && counted
	}
	r.ob("UNIT", at, body.Loop.Pos, ok, "%s: %v", why, unit)
}
