package main

import (
	"go/token"
)

// P47: a new pool takes what its price range needs, and its curve goes through
// its balances.

func ruleP47(w *World, r *R) {
	r.createRanged(w)
	r.createBasic(w)
	r.initialSupply(w)
	r.poolPrices(w)
	r.translation(w)
}

const (
	nSupply = pAmm + ".InitialPoolCoinSupply"
	nTrans  = pAmm + ".DeriveTranslation"
)

func (r *R) fnRun(w *World, rule, at string, x *FnRun, n int) bool {
	pos := token.NoPos
	if x.Fn != nil {
		pos = x.Fn.Pos()
	}
	return r.ob(rule, at, pos, x.Err == "" && len(x.Args) == n && len(x.rets()) > 0, "cannot be analysed: %s", x.Err)
}

// wholeUp: the value is the next whole number up.
func wholeUp(t *Term) bool {
	if t.Op == "todec" {
		return wholeUp(t.Args[0])
	}
	if t.Op != "call" || t.Name != mathDec+".TruncateInt" && t.Name != mathDec+".RoundInt" {
		return false
	}
	c := t.Args[0]
	return c.Op == "call" && c.Name == mathDec+".Ceil"
}

func (r *R) createRanged(w *World) {
	at := "amm.CreateRangedPool"
	x := w.run(w.P.fn(pAmm, "", "CreateRangedPool"), "ValidateRangedPoolParams", "InitialPoolCoinSupply", "DeriveTranslation", "DecApproxSqrt")
	if !r.fnRun(w, "RANGED", at, x, 5) {
		return
	}
	ox, oy, min, max, in := x.Args[0], x.Args[1], x.Args[2], x.Args[3], x.Args[4]
	root := func(t *Term) frac { return fracAtom(callT(nSqrt, t)) }
	a := root(in).minus(root(min))
	b := root(in).inv().minus(root(max).inv())
	needY := fracOf(ox).quo(a).mul(b)
	needX := fracOf(oy).quo(b).mul(a)
	for _, o := range x.rets() {
		if o.Vals[1].Op != "nil" {
			continue
		}
		f := o.Facts()
		after := o.St.mem[o.Vals[0]]
		if !r.ob("RANGED-POOL", at, o.Pos, after != nil, "the pool made is %v", o.Vals[0]) {
			continue
		}
		rx, ry := w.fld(after, "RangedPool", "rx"), w.fld(after, "RangedPool", "ry")
		r.ob("RANGED-SUPPLY", at, o.Pos, w.fld(after, "RangedPool", "ps") == callT(nSupply, rx, ry), "the supply is %v", w.fld(after, "RangedPool", "ps"))
		switch {
		case f.same(in, min) && rx == ci(0):
			r.ob("RANGED-ONLY-Y", at, o.Pos, ry == oy, "a pool of base coin only takes %v", ry)
		case f.same(in, max) && ry == ci(0):
			r.ob("RANGED-ONLY-X", at, o.Pos, rx == ox, "a pool of quote coin only takes %v", rx)
		case rx == ox:
			r.ob("RANGED-Y", at, o.Pos, fracOf(ry).equal(needY), "with all quote coin it takes %v base coin", ry)
			r.ob("RANGED-Y-UP", at, o.Pos, wholeUp(ry), "what it takes is not rounded up: %v", ry)
			r.ob("RANGED-Y-OFFERED", at, o.Pos, f.has(geL(oy, ry, false)), "it may take more base coin than it is offered")
		default:
			r.ob("RANGED-X", at, o.Pos, ry == oy && fracOf(rx).equal(needX), "it takes %v and %v", rx, ry)
			r.ob("RANGED-X-UP", at, o.Pos, wholeUp(rx), "what it takes is not rounded up: %v", rx)
			short := false
			for c, v := range f.m {
				if c.Op == "lt" && v && c.Args[0] == oy && wholeUp(c.Args[1]) && fracOf(c.Args[1]).equal(needY) {
					short = true
				}
			}
			r.ob("RANGED-X-SHORT", at, o.Pos, short, "it does not take all quote coin although there may be enough base coin")
		}
	}
	for _, n := range []string{"RANGED-ONLY-X", "RANGED-ONLY-Y", "RANGED-X", "RANGED-Y"} {
		r.floor(n, 1)
	}
}

func (r *R) createBasic(w *World) {
	at := "amm.CreateBasicPool"
	x := w.run(w.P.fn(pAmm, "", "CreateBasicPool"), "InitialPoolCoinSupply")
	if !r.fnRun(w, "BASIC", at, x, 2) {
		return
	}
	for _, o := range x.rets() {
		if o.Vals[1].Op != "nil" {
			continue
		}
		after := o.St.mem[o.Vals[0]]
		if !r.ob("BASIC-POOL", at, o.Pos, after != nil, "the pool made is %v", o.Vals[0]) {
			continue
		}
		rx, ry := w.fld(after, "BasicPool", "rx"), w.fld(after, "BasicPool", "ry")
		r.ob("BASIC-TAKES", at, o.Pos, rx == x.Args[0] && ry == x.Args[1], "it takes %v and %v", rx, ry)
		r.ob("BASIC-SUPPLY", at, o.Pos, w.fld(after, "BasicPool", "ps") == callT(nSupply, rx, ry), "the supply is %v", w.fld(after, "BasicPool", "ps"))
	}
	r.floor("BASIC-TAKES", 1)
}

func (r *R) initialSupply(w *World) {
	at := "amm.InitialPoolCoinSupply"
	x := w.run(w.P.fn(pAmm, "", "InitialPoolCoinSupply"))
	if !r.fnRun(w, "SUPPLY", at, x, 2) {
		return
	}
	var wants []*Term
	for _, a := range digitsIn(x.Args[0]) {
		for _, b := range digitsIn(x.Args[1]) {
			wants = append(wants, mk("bin", "/", nil, linAdd(linAdd(a, b, 1, nil), ci(1), 1, nil), ci(2)))
		}
	}
	for _, o := range x.Outs {
		if !r.ob("SUPPLY", at, o.Pos, o.Kind == "ret", "panics") {
			continue
		}
		v := o.Vals[0]
		if v.Op == "fromraw" || v.Op == "todec" {
			v = v.Args[0]
		}
		ok := false
		for _, want := range wants {
			ok = ok || unconv(v) == tenTo(want) || v.Op == "call" && hasSuffix(v.Name, ".Exp") && v.Args[0] == ci(10) && unconv(v.Args[1]) == want ||
				v.Op == "call" && hasSuffix(v.Name, ".NewIntWithDecimal") && v.Args[0] == ci(1) && unconv(v.Args[1]) == want
		}
		r.ob("SUPPLY-TEN", at, o.Pos, ok, "the initial supply is %v", v)
	}
	r.floor("SUPPLY-TEN", 1)
}

// digitsIn are the ways to write the number of decimal digits of an amount.
func digitsIn(t *Term) []*Term {
	return []*Term{mkLen(callT("(*math/big.Int).Text", t, ci(10))), mkLen(callT(mathInt+".String", t)), mkLen(callT("(*math/big.Int).String", t))}
}

// poolPrices: the price is the quotient of the composed balances.
func (r *R) poolPrices(w *World) {
	for _, t := range w.poolTypes() {
		for _, m := range []string{"Price", "HighestBuyPrice", "LowestSellPrice"} {
			at := "amm." + t.Obj().Name() + "." + m
			x := w.run(w.ptrMethod(t, m))
			if !r.fnRun(w, "PRICE", at, x, 1) {
				continue
			}
			p := w.poolView(t, x.Args[0])
			X, Y := p.fld("rx"), p.fld("ry")
			if p.has("xComp") {
				X, Y = p.fld("xComp"), p.fld("yComp")
			}
			for _, o := range x.Outs {
				f := o.Facts()
				if o.Kind != "ret" {
					zero := func(n string) bool {
						return f.has(eqL(p.fld(n), ci(0))) || f.has(eqL(mkToDec(p.fld(n), w.decType()), ci(0)))
					}
					ok := zero("rx") || zero("ry")
					if p.has("xComp") {
						ok = zero("rx") && zero("ry")
					}
					r.ob("PRICE-DEFINED", at, o.Pos, ok, "a pool with coins has no price")
					continue
				}
				r.ob("PRICE-IS", at, o.Pos, fracOf(o.Vals[0]).equal(fracOf(X).quo(fracOf(Y))), "the price is %v", o.Vals[0])
				if m != "Price" {
					r.ob("PRICE-FOUND", at, o.Pos, len(o.Vals) == 2 && o.Vals[1].is("bool", "true"), "a pool with coins tells no price")
				}
			}
		}
		for m, fl := range map[string][]string{"MinPrice": {"minPrice"}, "MaxPrice": {"maxPrice"}, "Translation": {"transX", "transY"}, "PoolCoinSupply": {"ps"}} {
			fn := w.ptrMethod(t, m)
			if fn == nil {
				continue
			}
			at := "amm." + t.Obj().Name() + "." + m
			x := w.run(fn)
			if !r.fnRun(w, "TELLS", at, x, 1) {
				continue
			}
			p := w.poolView(t, x.Args[0])
			for _, o := range x.rets() {
				ok := len(o.Vals) == len(fl)
				for i := range fl {
					ok = ok && p.has(fl[i]) && o.Vals[i] == p.fld(fl[i])
				}
				r.ob("TELLS", at, o.Pos, ok, "it tells %v", o.Vals)
			}
		}
	}
	r.floor("PRICE-IS", 2)
	r.floor("TELLS", 2)
}

// translation: moved by the translation the balances lie on a curve x*y = k
// whose end prices are those of the pool.
func (r *R) translation(w *World) {
	at := "amm.DeriveTranslation"
	x := w.run(w.P.fn(pAmm, "", "DeriveTranslation"), "DecApproxSqrt")
	if !r.fnRun(w, "TRANS", at, x, 4) {
		return
	}
	rx, ry := fracOf(x.Args[0]), fracOf(x.Args[1])
	rm, rl := fracAtom(callT(nSqrt, x.Args[2])), fracAtom(callT(nSqrt, x.Args[3]))
	for _, o := range x.rets() {
		f := o.Facts()
		// the root of the curve's constant
		k := fracOf(o.Vals[0]).quo(rm)
		r.ob("TRANS-CURVE", at, o.Pos, len(k.n) > 0 && fracOf(o.Vals[1]).equal(k.quo(rl)), "the end prices are not those of the pool: %v and %v", o.Vals[0], o.Vals[1])
		none := func(v frac) bool { // no more than a trace of this balance
			for a, val := range f.m {
				switch {
				case a.Op == "eq" && val && a.Args[0] == ci(0):
				case a.Op == "lt" && !val && a.Args[0] == ci(0):
				default:
					continue
				}
				q := fracOf(a.Args[1])
				if q.equal(v) || v.equal(rx) && q.equal(rx.quo(ry)) || v.equal(ry) && q.equal(ry.quo(rx)) {
					return true
				}
			}
			return false
		}
		// the price root the constant belongs to, from either balance
		s1 := rm.plus(rx.quo(k))
		s2 := ry.quo(k).plus(rl.inv()).inv()
		ok := false
		for _, s := range []frac{s1, s2} {
			if len(s.d) == 0 {
				continue
			}
			switch {
			case s.equal(rm):
				ok = ok || none(rx)
				continue
			case s.equal(rl):
				ok = ok || none(ry)
				continue
			}
			// (sqrtP - sqrtM)/x = (1/sqrtP - 1/sqrtL)/y
			q := s.minus(rm).mul(ry).minus(s.inv().minus(rl.inv()).mul(rx))
			ok = ok || q.zero() && greater(s)
		}
		r.ob("TRANS-PRICE", at, o.Pos, ok, "the curve does not go through the balances: %v and %v", o.Vals[0], o.Vals[1])
	}
	r.floor("TRANS-PRICE", 1)
}

// greater: of the two solutions of a quadratic equation it is the greater one.
func greater(s frac) bool {
	found := false
	for _, p := range []poly{s.n, s.d} {
		for _, m := range p {
			for t := range m.m {
				u := rootOf(t)
				if u == nil || len(fracOf(u).n) < 2 {
					continue
				}
				found = true
				if !s.positiveIn(t) {
					return false
				}
			}
		}
	}
	return found
}
