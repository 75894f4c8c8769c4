package main

// A pool offers everything it can within the prices of the book: it keeps back
// only what is too little to trade, and stops only at the end of the range or
// when its reserves are used up.

func ruleP50(w *World, r *R) {
	r.poolOffer(w, "PoolBuyOrders", true)
	r.poolOffer(w, "PoolSellOrders", false)
	r.floor("OFFER-NONE", 2)
	r.floor("OFFER-FAR", 4)
	r.floor("OFFER-FIRST", 4)
	r.floor("OFFER-SKIP", 2)
	r.floor("OFFER-NEXT", 4)
	r.floor("OFFER-END", 4)
}

func (r *R) poolOffer(w *World, name string, buy bool) {
	at := "amm." + name
	x := w.run(w.P.fn(pAmm, "", name), "PriceToDownTick", "PriceToUpTick", "DownTick", "UpTick", "poolOrderPriceGapRatio")
	if !r.ob("OFFER", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err) {
		return
	}
	pool, low, high, prec := x.Args[0], x.Args[2], x.Args[3], x.Args[4]
	far, near, to, over := high, low, "BuyAmountTo", "BuyAmountOver"
	snap, step, pick := pAmm+".PriceToDownTick", pAmm+".DownTick", "min"
	if !buy {
		far, near, to, over = low, high, "SellAmountTo", "SellAmountUnder"
		snap, step, pick = pAmm+".PriceToUpTick", pAmm+".UpTick", "max"
	}
	min := w.globalT(pAmm, "MinCoinAmount")
	// better(a, b): for the pool's side, a lies strictly on the far side of b
	beyond := func(a, b *Term) Lit {
		if buy {
			return ltL(b, a, false)
		}
		return ltL(a, b, false)
	}
	tooLittle := func(f *Facts, a, p *Term) bool {
		if f.has(ltL(a, min, false)) || f.has(geL(ci(0), a, false)) {
			return true
		}
		if buy {
			return false
		}
		worth := callT(mathDec+".TruncateInt", callT(mathDec+".MulInt", p, a))
		return f.has(eqL(ci(0), worth)) || f.has(geL(ci(0), worth, false))
	}
	usedUp := func(f *Facts, evs []*Event) bool {
		var bal *Event
		for _, ev := range evs {
			switch {
			case ev.Kind != "invoke":
			case ev.Name == nPoolI+".SetBalances":
				bal = ev
			case ev.Name == nPoolI+".Balances" && bal != nil:
				if buy && f.has(geL(ci(0), proj(ev.Res, 0), false)) {
					return true
				}
				if !buy && (f.has(geL(min, proj(ev.Res, 1), false)) || f.has(geL(ci(0), proj(ev.Res, 1), false))) {
					return true
				}
			}
		}
		if bal != nil {
			// the balances just set
			if buy && f.has(geL(ci(0), bal.Args[1], false)) {
				return true
			}
			if !buy && (f.has(geL(min, bal.Args[2], false)) || f.has(geL(ci(0), bal.Args[2], false))) {
				return true
			}
		}
		return false
	}
	placedAt := func(evs []*Event, p, a *Term) (bool, *Event) {
		for i, ev := range evs {
			if ev.Kind == "invoke" && ev.Name == pAmm+".Orderer.Order" && ev.Args[2] == p && ev.Args[3] == a {
				for _, e := range evs[i+1:] {
					if e.Kind == "invoke" && e.Name == nPoolI+".SetBalances" {
						return true, e
					}
				}
				return true, nil
			}
		}
		return false, nil
	}
	derives := func(e *Event, want bool) bool {
		return e != nil && e.Args[3] == constBool(want)
	}
	for _, u := range x.units() {
		if u.Parent != nil || u.Loop != nil || u.Out.Recovered {
			continue
		}
		f := u.Facts
		// what is known of the price before and after the far end is served
		orig, now := map[*Term]bool{}, map[*Term]bool{}
		var clone, loop *Event
		moved := false
		var before, after []*Event
		for _, ev := range u.Events {
			switch {
			case ev.Kind == "loop" && loop == nil:
				loop = ev
			case loop != nil:
				after = append(after, ev)
			case ev.Kind == "invoke":
				before = append(before, ev)
				switch ev.Name {
				case nPoolI + ".Clone":
					clone = ev
					now = map[*Term]bool{}
					for t := range orig {
						now[t] = true
					}
				case nPoolI + ".Price":
					if ev.Args[0] == pool {
						orig[ev.Res] = true
					} else if clone != nil && ev.Args[0] == clone.Res {
						now[ev.Res] = true
						if !moved {
							orig[ev.Res] = true
						}
					}
				case nPoolI + ".SetBalances":
					moved = true
					now = map[*Term]bool{}
				}
			}
		}
		holds := func(of map[*Term]bool, l func(p *Term) Lit) bool {
			for p := range of {
				if f.has(l(p)) {
					return true
				}
			}
			return false
		}
		if loop == nil {
			ok := holds(orig, func(p *Term) Lit { return notL(beyond(p, near)) }) || usedUp(f, before)
			r.ob("OFFER-NONE", at, u.Out.Pos, ok, "the pool offers nothing although its price lies within the range")
			continue
		}
		// beyond the far end, all up to it is offered there
		if !holds(orig, func(p *Term) Lit { return notL(beyond(p, far)) }) {
			var amt *Event
			for _, ev := range before {
				if ev.Name == nPoolI+"."+to && ev.Args[1] == far {
					amt = ev
				}
			}
			if r.ob("OFFER-FAR", at, u.Out.Pos, amt != nil, "a pool priced beyond the range does not offer what lies beyond") {
				was, set := placedAt(before, far, amt.Res)
				r.ob("OFFER-FAR", at, amt.Pos, was || tooLittle(f, amt.Res, far), "what lies beyond the range is not offered although it is enough to trade")
				r.ob("OFFER-FAR", at, amt.Pos, !was || derives(set, true), "the curve is not moved to the end of the range")
			}
		} else {
			r.ob("OFFER-FAR", at, u.Out.Pos, true, "")
		}
		// the tick the walk is at
		var tick *Term
		asked := func(evs []*Event) *Event {
			for _, ev := range evs {
				if ev.Kind == "invoke" && ev.Name == nPoolI+"."+over {
					return ev
				}
			}
			return nil
		}
		for _, b := range loop.Bodies {
			if ev := asked(b.Events); ev != nil && loop.Mus[ev.Args[1]] != nil {
				tick = ev.Args[1]
			}
		}
		if !r.ob("OFFER-FIRST", at, loop.Pos, tick != nil, "the pool does not walk down the prices") {
			continue
		}
		mi := loop.Mus[tick]
		in := mi.Init
		ok := false
		if in != nil && in.Op == "call" && in.Name == snap && in.Args[1] == prec {
			a := in.Args[0]
			ok = a == far || now[a] && (f.has(notL(beyond(a, far))) || f.has(beyond(far, a)))
			if a.Op == pick && len(a.Args) == 2 {
				ok = ok || a.Args[0] == far && now[a.Args[1]] || a.Args[1] == far && now[a.Args[0]]
			}
		}
		r.ob("OFFER-FIRST", at, loop.Pos, ok, "the walk starts at %v", mi.Init)
		for i, b := range loop.Bodies {
			ev := asked(b.Events)
			if !r.ob("OFFER-NEXT", at, loop.Pos, ev != nil && ev.Args[1] == tick && i < len(mi.Backs), "a price is passed without asking") {
				continue
			}
			back := mi.Backs[i].Val
			was, set := placedAt(b.Events, tick, ev.Res)
			if !was {
				r.ob("OFFER-SKIP", at, ev.Pos, tooLittle(b.Facts, ev.Res, tick), "an amount large enough to trade is not offered")
				r.ob("OFFER-NEXT", at, ev.Pos, back != nil && back.Op == "call" && back.Name == step && back.Args[0] == tick && back.Args[1] == prec, "the price after one with too little is %v", back)
				continue
			}
			r.ob("OFFER-CURVE", at, ev.Pos, derives(set, false), "the curve moves while it is walked")
			ok := false
			if back != nil && back.Op == "call" && back.Name == snap && back.Args[1] == prec && w.scaledBy(b.Facts, back.Args[0], tick, buy) && back.Args[0] != tick {
				// the gap is that of the price from the pool's
				ok = true
				for _, g := range gapsIn(back.Args[0]) {
					ok = ok && orig[g.Args[0]] && g.Args[1] == tick
				}
			}
			r.ob("OFFER-NEXT", at, ev.Pos, ok, "the price after an order is %v", back)
		}
		// the end
		end := f.has(beyond(near, tick))
		var br []*Event
		if !end {
			br = after
			ev := asked(br)
			end = ev != nil && ev.Args[1] == tick && usedUp(f, br)
			if end {
				was, set := placedAt(br, tick, ev.Res)
				end = was && derives(set, false)
			}
		}
		r.ob("OFFER-END", at, u.Out.Pos, end, "the pool stops before the end of the range with reserves left")
	}
}

// gapsIn: the gap ratios within a price.
func gapsIn(t *Term) []*Term {
	if t.Op == "call" && t.Name == pAmm+".poolOrderPriceGapRatio" {
		return []*Term{t}
	}
	var r []*Term
	for _, a := range t.Args {
		r = append(r, gapsIn(a)...)
	}
	return r
}
