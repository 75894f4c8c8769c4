package main

import (
	"go/types"
	"math/big"
	"strings"
)

// P17: a pool's orders never offer more than the pool has, and only at better
// prices than its own for the pool.

const (
	nPoolI = pAmm + ".Pool"
	nSqrt  = "defund/types.DecApproxSqrt"
)

func ruleP17(w *World, r *R) {
	r.poolBalances(w)
	for _, t := range w.poolTypes() {
		for _, m := range []string{"BuyAmountOver", "SellAmountUnder", "BuyAmountTo", "SellAmountTo"} {
			r.poolAmount(w, t, m)
		}
	}
	r.poolOrders(w, "PoolBuyOrders", true)
	r.poolOrders(w, "PoolSellOrders", false)
	r.poolOrdersBoth(w)
	r.poolOrderMade(w)
	r.gapRatio(w)
	x := w.run(w.P.fn("defund/types", "", "DecApproxSqrt"))
	for _, o := range x.rets() {
		r.ob("SQRT", "types.DecApproxSqrt", o.Pos, o.Vals[0] == proj(callT(mathDec+".ApproxSqrt", x.Args[0]), 0), "the root is %v", o.Vals[0])
	}
	r.floor("SQRT", 1)
	r.floor("AMOUNT-SOME", 1)
	r.floor("AMOUNT-NONE", 1)
	r.floor("AMOUNT-CAP", 1)
	r.floor("PLACE-AMOUNT", 1)
}

// poolTypes are the kinds of pools.
func (w *World) poolTypes() []*types.Named {
	nt := w.P.namedType(pAmm, "Pool")
	if nt == nil {
		return nil
	}
	it, ok := nt.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*types.Named
	sc := w.P.Prog.ImportedPackage(pAmm).Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(t) || !types.Implements(types.NewPointer(t), it) {
			continue
		}
		r = append(r, t)
	}
	return r
}

type poolView struct {
	w    *World
	name string
	ptr  *Term
	cell *Term
}

func (w *World) poolView(t *types.Named, ptr *Term) poolView {
	return poolView{w, t.Obj().Name(), ptr, mk("deref", "", t, ptr)}
}

func (p poolView) has(name string) bool {
	return fieldIdx(p.w.P.namedType(pAmm, p.name), name) >= 0
}

func (p poolView) fld(name string) *Term { return p.w.fld(p.cell, p.name, name) }

// poolBalances: pools tell and keep the balances they are given; copies are
// independent.
func (r *R) poolBalances(w *World) {
	ts := w.poolTypes()
	r.ob("POOL-KINDS", "amm.Pool", 0, len(ts) >= 2, "%d kinds of pools", len(ts))
	for _, t := range ts {
		at := "amm." + t.Obj().Name()
		x := w.run(w.ptrMethod(t, "Balances"))
		if r.ob("BALANCES", at+".Balances", x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err) {
			p := w.poolView(t, x.Args[0])
			for _, o := range x.rets() {
				r.ob("BALANCES", at+".Balances", o.Pos, len(o.Vals) == 2 && o.Vals[0] == p.fld("rx") && o.Vals[1] == p.fld("ry"), "the balances are %v", o.Vals)
			}
		}
		x = w.run(w.ptrMethod(t, "SetBalances"), "DeriveTranslation")
		if r.ob("SET-BALANCES", at+".SetBalances", x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err) {
			p := w.poolView(t, x.Args[0])
			for _, o := range x.rets() {
				after := o.St.mem[p.ptr]
				if !r.ob("SET-BALANCES", at+".SetBalances", o.Pos, after != nil, "the balances are not kept") {
					continue
				}
				get := func(n string) *Term { return w.fld(after, p.name, n) }
				r.ob("SET-BALANCES", at+".SetBalances", o.Pos, get("rx") == x.Args[1] && get("ry") == x.Args[2], "the balances become %v, %v", get("rx"), get("ry"))
				r.poolWhole(w, at+".SetBalances", o, p.name, after)
				for _, n := range []string{"ps", "minPrice", "maxPrice"} {
					if p.has(n) {
						r.ob("SET-BALANCES", at+".SetBalances", o.Pos, get(n) == p.fld(n), "%s becomes %v", n, get(n))
					}
				}
				if p.has("transX") {
					kept := get("transX") == p.fld("transX") && get("transY") == p.fld("transY")
					tr := callT(pAmm+".DeriveTranslation", x.Args[1], x.Args[2], p.fld("minPrice"), p.fld("maxPrice"))
					derived := get("transX") == proj(tr, 0) && get("transY") == proj(tr, 1)
					want, not := o.St.facts.has(Lit{x.Args[3], true}), o.St.facts.has(Lit{x.Args[3], false})
					r.ob("SET-BALANCES", at+".SetBalances", o.Pos, want && derived || not && kept || derived && kept, "the translation becomes %v, %v", get("transX"), get("transY"))
				}
			}
		}
		x = w.run(w.ptrMethod(t, "Clone"))
		if r.ob("CLONE", at+".Clone", x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err) {
			p := w.poolView(t, x.Args[0])
			for _, o := range x.rets() {
				v := o.Vals[0]
				if v.Op == "iface" {
					v = v.Args[0]
				}
				after := o.St.mem[v]
				if !r.ob("CLONE", at+".Clone", o.Pos, v != p.ptr && after != nil, "the copy is %v", v) {
					continue
				}
				st := t.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					n := st.Field(i).Name()
					r.ob("CLONE", at+".Clone", o.Pos, w.fld(after, p.name, n) == p.fld(n), "%s of the copy is %v", n, w.fld(after, p.name, n))
				}
			}
		}
	}
	// the constructors
	x := w.run(w.P.fn(pAmm, "", "NewBasicPool"))
	if r.ob("NEW", "amm.NewBasicPool", x.Fn.Pos(), x.Err == "" && len(x.rets()) == 1, "cannot analyse %s", x.Err) {
		after := x.rets()[0].St.mem[x.rets()[0].Vals[0]]
		for i, n := range []string{"rx", "ry", "ps"} {
			r.ob("NEW", "amm.NewBasicPool", x.Fn.Pos(), after != nil && w.fld(after, "BasicPool", n) == x.Args[i], "%s is not as given", n)
		}
	}
	x = w.run(w.P.fn(pAmm, "", "NewRangedPool"), "DeriveTranslation")
	if r.ob("NEW", "amm.NewRangedPool", x.Fn.Pos(), x.Err == "" && len(x.rets()) == 1, "cannot analyse %s", x.Err) {
		o := x.rets()[0]
		after := o.St.mem[o.Vals[0]]
		if r.ob("NEW", "amm.NewRangedPool", x.Fn.Pos(), after != nil, "no pool") {
			tr := callT(pAmm+".DeriveTranslation", x.Args[0], x.Args[1], x.Args[3], x.Args[4])
			for n, v := range map[string]*Term{"rx": x.Args[0], "ry": x.Args[1], "ps": x.Args[2], "minPrice": x.Args[3], "maxPrice": x.Args[4], "transX": proj(tr, 0), "transY": proj(tr, 1)} {
				r.ob("NEW", "amm.NewRangedPool", x.Fn.Pos(), w.fld(after, "RangedPool", n) == v, "%s is not as given", n)
			}
			r.poolWhole(w, "amm.NewRangedPool", o, "RangedPool", after)
		}
	}
}

// poolWhole: the composed balances of a ranged pool are its balances moved by
// the translation.
func (r *R) poolWhole(w *World, at string, o *Outcome, name string, cell *Term) {
	if fieldIdx(w.P.namedType(pAmm, name), "xComp") < 0 {
		return
	}
	get := func(n string) *Term { return w.fld(cell, name, n) }
	dec := w.decType()
	r.ob("COMPOSED", at, o.Pos, linSame(o.St.facts, get("xComp"), linAdd(mkToDec(get("rx"), w.decType()), get("transX"), 1, dec)), "xComp is %v", get("xComp"))
	r.ob("COMPOSED", at, o.Pos, linSame(o.St.facts, get("yComp"), linAdd(mkToDec(get("ry"), w.decType()), get("transY"), 1, dec)), "yComp is %v", get("yComp"))
}

func (w *World) decType() types.Type {
	return w.P.namedType(pMath, "LegacyDec")
}

// poolAmount: what a pool offers down (up) to a price is what moves its price
// there, rounded down and never more than it has.
func (r *R) poolAmount(w *World, t *types.Named, meth string) {
	at := "amm." + t.Obj().Name() + "." + meth
	x := w.run(w.ptrMethod(t, meth), "DecApproxSqrt")
	r.ob("AMOUNT", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	p := w.poolView(t, x.Args[0])
	price := x.Args[1]
	buy := meth[0] == 'B'
	dec := w.decType()
	X, Y := mkToDec(p.fld("rx"), w.decType()), mkToDec(p.fld("ry"), w.decType())
	ownX, ownY := X, Y
	min, max := w.globalT(pAmm, "MinPoolPrice"), w.globalT(pAmm, "MaxPoolPrice")
	var trX, trY *Term
	if p.has("xComp") {
		X, Y = p.fld("xComp"), p.fld("yComp")
		trX, trY = p.fld("transX"), p.fld("transY")
		min, max = p.fld("minPrice"), p.fld("maxPrice")
	}
	sqrt := func(x *Term) *Term { return callT(nSqrt, x) }
	for _, o := range x.rets() {
		f := o.St.facts
		// the price no worse than the pool can go
		var at0 *Term
		if buy {
			switch {
			case f.has(geL(price, min, false)):
				at0 = price
			case f.has(ltL(price, min, false)):
				at0 = min
			default:
				at0 = mkMinMax("max", []*Term{price, min}, dec)
			}
		} else {
			switch {
			case f.has(geL(max, price, false)):
				at0 = price
			case f.has(ltL(max, price, false)):
				at0 = max
			default:
				at0 = mkMinMax("min", []*Term{price, max}, dec)
			}
		}
		rd := newRounder(f)
		P := func(t *Term) poly { v := rd.eval(t); return v.set[0] }
		maxAmt := polyAtom(w.globalT(pAmm, "MaxCoinAmount"))
		neg := polyConst(big.NewRat(-1, 1))
		var num poly // what moves the price there
		root := P(sqrt(X)).mul(P(sqrt(Y)))
		if !p.has("xComp") {
			root = P(sqrt(ownX)).mul(P(sqrt(ownY)))
		}
		switch meth {
		case "BuyAmountOver":
			num = P(X).plus(P(at0).mul(P(Y)).mul(neg))
		case "SellAmountUnder":
			num = P(Y).plus(P(X).mul(P(at0).inv()).mul(neg))
		case "BuyAmountTo":
			num = P(ownX).plus(P(sqrt(at0)).mul(root).mul(neg))
			if trX != nil {
				num = num.plus(P(trX))
			}
		case "SellAmountTo":
			num = P(ownY).plus(P(sqrt(at0)).inv().mul(root).mul(neg))
			if trY != nil {
				num = num.plus(P(trY))
			}
		}
		ideal, cap, own := num, P(ownX), ownX
		if buy {
			ideal = num.mul(P(price).inv())
			cap = cap.mul(P(price).inv())
		} else {
			cap, own = P(ownY), ownY
		}
		is := func(t *Term, ps ...poly) bool {
			v := rd.eval(t)
			for _, q := range ps {
				if !v.has(q) {
					return false
				}
			}
			return len(v.set) == len(ps)
		}
		any := func(t *Term) bool { return is(t, num) || is(t, ideal) }
		// positive: 1 the pool has something to offer, -1 it has not
		positive, capped, beyond := 0, false, false
		for a, val := range f.m {
			if a.Op != "lt" {
				continue
			}
			d := linAdd(a.Args[1], a.Args[0], -1, dec)
			if any(d) || a.Args[0] == ci(0) && (any(a.Args[1]) || is(a.Args[1], ideal, cap) || is(a.Args[1], num, P(own))) {
				if val {
					positive = 1
				} else {
					positive = -1
				}
			}
			if !val {
				continue
			}
			// own < amount
			over := linAdd(mkToDec(a.Args[1], w.decType()), mkToDec(a.Args[0], w.decType()), -1, dec)
			capped = capped || is(over, num.plus(P(own).mul(neg))) || any(a.Args[1]) && is(a.Args[0], P(own))
			beyond = beyond || a.Args[0] == w.globalT(pAmm, "MaxCoinAmount") && (any(a.Args[1]) || is(a.Args[1], cap) || is(a.Args[1], ideal, cap))
		}
		v := o.Vals[0]
		has := positive > 0 || capped
		if v.Op == "max" && len(v.Args) == 2 && (v.Args[0] == ci(0) || v.Args[1] == ci(0)) {
			has = true
			if v = v.Args[0]; v == ci(0) {
				v = o.Vals[0].Args[1]
			}
		}
		switch {
		case v == ci(0):
			var notBetter bool
			P0 := decQuo(X, Y)
			if buy {
				notBetter = f.has(geL(at0, P0, false))
			} else {
				notBetter = f.has(geL(P0, at0, false))
			}
			none := f.has(geL(ci(0), own, false)) || f.has(geL(ci(0), own.Args[0], false))
			r.ob("AMOUNT-NONE", at, o.Pos, notBetter || positive < 0 || none, "a pool with something to offer offers nothing")
		case v == w.globalT(pAmm, "MaxCoinAmount"):
			r.ob("AMOUNT-MAX", at, o.Pos, has && (beyond || anyPanic(f)), "the pool offers the maximum although it has less")
		default:
			r.ob("AMOUNT-POSITIVE", at, o.Pos, has || f.has(ltL(ci(0), v, false)), "the pool may offer a negative amount")
			e := rd.eval(v)
			some := e.has(ideal) || e.has(cap) && capped
			for _, q := range e.set {
				k := q.key()
				some = some && (k == ideal.key() || k == cap.key() || k == maxAmt.key())
			}
			r.ob("AMOUNT-SOME", at, o.Pos, some, "the pool offers %v", e)
			if (meth == "BuyAmountOver" || meth == "SellAmountUnder") && (trX == nil || !buy) {
				r.ob("AMOUNT-DOWN", at, o.Pos, e.dir == dDown || e.dir == dExact, "the pool offers %v", e)
			}
			r.ob("AMOUNT-WHOLE", at, o.Pos, e.integer, "the pool offers a fraction %v", e)
			r.ob("AMOUNT-CAP", at, o.Pos, w.noMore(f, p, v, own, price, buy), "the pool may offer more than it has: %v", e)
		}
	}
}

func decQuo(a, b *Term) *Term { return callT(mathDec+".Quo", a, b) }

// noMore: the offer v is worth no more than own.
func (w *World) noMore(f *Facts, p poolView, v, own, price *Term, buy bool) bool {
	if v.Op == "min" {
		for _, a := range v.Args {
			if w.noMore(f, p, a, own, price, buy) {
				return true
			}
		}
		return false
	}
	if !buy && (mkToDec(v, w.decType()) == own || f.has(geL(own, mkToDec(v, w.decType()), false)) || f.has(geL(own.Args[0], v, false))) {
		return true
	}
	if v.Op != "call" || v.Name != mathDec+".TruncateInt" {
		return false
	}
	dx := v.Args[0]
	if buy {
		if dx.Op != "call" || dx.Name != mathDec+".QuoTruncate" || dx.Args[1] != price {
			return false
		}
		dx = dx.Args[0]
	}
	return w.notAbove(f, p, dx, own)
}

func (w *World) notAbove(f *Facts, p poolView, dx, own *Term) bool {
	if dx == own || f.has(geL(own, dx, false)) {
		return true
	}
	if dx.Op == "min" {
		for _, a := range dx.Args {
			if w.notAbove(f, p, a, own) {
				return true
			}
		}
		return false
	}
	return p.nonneg(linAdd(own, dx, -1, w.decType()))
}

// nonneg: balances, prices and translations are not negative, nor is what is
// made of them without subtraction.
func (p poolView) nonneg(t *Term) bool {
	if v, ok := t.intVal(); ok {
		return v.Sign() >= 0
	}
	switch t.Op {
	case "param":
		return true
	case "field":
		return t.Args[0] == p.cell
	case "todec", "max", "min":
		for _, a := range t.Args {
			if !p.nonneg(a) {
				return false
			}
		}
		return true
	case "lin":
		l := toLin(t)
		if l.c.Sign() < 0 {
			return false
		}
		for a, c := range l.co {
			if c.Sign() < 0 || !p.nonneg(a) {
				return false
			}
		}
		return true
	case "call":
		switch t.Name {
		case pMath + ".LegacyNewDecWithPrec", pMath + ".NewIntWithDecimal":
			return p.nonneg(t.Args[0])
		case nSqrt, mathDec + ".Mul", mathDec + ".MulInt", mathDec + ".MulTruncate", mathDec + ".MulRoundUp", mathDec + ".Quo", mathDec + ".QuoTruncate", mathDec + ".QuoRoundUp", mathDec + ".QuoInt":
			for _, a := range t.Args {
				if !p.nonneg(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// poolOrders: the orders of one side of a pool.
func (r *R) poolOrders(w *World, name string, buy bool) {
	at := "amm." + name
	x := w.run(w.P.fn(pAmm, "", name), "PriceToDownTick", "PriceToUpTick", "DownTick", "UpTick", "poolOrderPriceGapRatio")
	r.ob("PLACE", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	pool, orderer, low, high, prec := x.Args[0], x.Args[1], x.Args[2], x.Args[3], x.Args[4]
	dir, to, over := ci(1), "BuyAmountTo", "BuyAmountOver"
	if !buy {
		dir, to, over = ci(2), "SellAmountTo", "SellAmountUnder"
	}
	min := w.globalT(pAmm, "MinCoinAmount")
	dec := w.decType()
	for _, u := range x.units() {
		var clone *Term
		var evs []*Event
		// earlier rounds of the loop leave the copy's balances settled
		for _, ev := range u.Events {
			if ev.Kind == "invoke" {
				evs = append(evs, ev)
			}
		}
		top := u
		for top.Parent != nil {
			top = top.Parent
		}
		for _, ev := range allEvents(top.Events) {
			if ev.Kind == "invoke" && ev.Name == nPoolI+".Clone" {
				if clone != nil {
					r.ob("PLACE-COPY", at, ev.Pos, false, "the pool is copied twice")
				}
				clone = ev.Res
				r.ob("PLACE-COPY", at, ev.Pos, ev.Args[0] == pool, "%v is copied", ev.Args[0])
			}
		}
		var bal, order *Event // balances read since, order to be settled
		amts := map[*Term]*Event{}
		var placed []*Term
		for _, ev := range evs {
			switch ev.Name {
			case nPoolI + "." + to, nPoolI + "." + over:
				r.ob("PLACE-SETTLED", at, ev.Pos, order == nil, "an amount is asked for before the last order is accounted for")
				r.ob("PLACE-COPY", at, ev.Pos, clone != nil && ev.Args[0] == clone, "amounts come from %v", ev.Args[0])
				amts[ev.Res] = ev
			case nPoolI + ".Balances":
				if ev.Args[0] == clone {
					bal = ev
				}
			case nPoolI + ".SetBalances":
				if !r.ob("PLACE-COPY", at, ev.Pos, clone != nil && ev.Args[0] == clone, "balances of %v are changed", ev.Args[0]) {
					continue
				}
				ok := order != nil && bal != nil
				if r.ob("PLACE-ACCOUNT", at, ev.Pos, ok, "balances are changed without an order") {
					p, a := order.Args[2], order.Args[3]
					x0, y0 := proj(bal.Res, 0), proj(bal.Res, 1)
					sy := 1
					dx := linAdd(x0, ev.Args[1], -1, nil)
					want := dUp
					if !buy {
						sy = -1
						dx = linAdd(ev.Args[1], x0, -1, nil)
						want = dDown
					}
					r.ob("PLACE-ACCOUNT", at, ev.Pos, linSame(u.Facts, ev.Args[2], linAdd(y0, a, int64(sy), nil)), "the base balance becomes %v", ev.Args[2])
					rd := newRounder(u.Facts)
					v := rd.eval(dx)
					ok := sameSet(v, []poly{polyAtom(p).mul(polyAtom(a))}) && v.integer && (v.dir == want || v.dir == dExact)
					r.ob("PLACE-ACCOUNT", at, ev.Pos, ok, "the quote balance changes by %v", v)
				}
				order, bal = nil, nil
				amts = map[*Term]*Event{}
			case pAmm + ".Orderer.Order":
				p, a := ev.Args[2], ev.Args[3]
				placed = append(placed, ev.Res)
				r.ob("PLACE-SETTLED", at, ev.Pos, order == nil, "an order is placed before the last one is accounted for")
				r.ob("PLACE-BY", at, ev.Pos, ev.Args[0] == orderer, "the order is made by %v", ev.Args[0])
				r.ob("PLACE-DIRECTION", at, ev.Pos, ev.Args[1] == dir, "the direction of the order is %v", ev.Args[1])
				f := u.Facts
				am := amts[a]
				r.ob("PLACE-AMOUNT", at, ev.Pos, am != nil && am.Args[1] == p, "the amount %v is not what the pool offers at %v", a, p)
				r.ob("PLACE-MIN", at, ev.Pos, f.has(geL(a, min, false)), "an order smaller than the minimum is placed")
				if !buy {
					worth := callT(mathDec+".TruncateInt", callT(mathDec+".MulInt", p, a))
					r.ob("PLACE-WORTH", at, ev.Pos, f.has(ltL(ci(0), worth, false)) || f.has(neL(ci(0), worth)), "an order worth nothing is placed")
				}
				// within the range
				lo, hi := p == low || f.has(geL(p, low, false)), p == high || f.has(geL(high, p, false))
				if !lo && p == high {
					// the range is not empty
					lo = true
				}
				if p == low {
					hi = true
				}
				if !lo || !hi {
					if ok, why := w.tickWalk(top, u, p, low, high, prec, buy, dec); ok {
						if buy {
							hi = true
						} else {
							lo = true
						}
					} else {
						r.ob("PLACE-RANGE", at, ev.Pos, false, "%s", why)
						continue
					}
				}
				r.ob("PLACE-RANGE", at, ev.Pos, lo && hi, "an order is placed at %v", p)
				order = ev
			case nPoolI + ".Clone", nPoolI + ".Price", nPoolI + ".IsDepleted", nPoolI + ".PoolCoinSupply":
			default:
				r.ob("PLACE-PURE", at, ev.Pos, false, "unexpected %s", ev.Name)
			}
		}
		if u.Loop != nil {
			r.ob("PLACE-SETTLED", at, x.Fn.Pos(), order == nil, "an order is not accounted for before the next")
			continue
		}
		r.listOf(w, at, u, u.Out.Vals[0], placed)
	}
}

// listOf: the result lists exactly the orders made, of every round.
func (r *R) listOf(w *World, at string, u *Unit, v *Term, placed []*Term) {
	if v.Op == "nil" {
		// nothing made, or given up after a panic
		return
	}
	tail := map[*Term]bool{}
	for _, t := range placed {
		tail[t] = true
	}
	sg := segments(v)
	for i := 0; i < len(sg); i++ {
		if sg[i].el != nil {
			r.ob("PLACE-LIST", at, u.Out.Pos, tail[sg[i].el], "the list has %v", sg[i].el)
			delete(tail, sg[i].el)
			continue
		}
		m := sg[i].list
		ev := muLoop(u, m)
		if !r.ob("PLACE-LIST", at, u.Out.Pos, ev != nil && sg[i].whole(), "the list has all of %v", m) {
			continue
		}
		mi := ev.Mus[m]
		for _, s := range segments(mi.Init) {
			r.ob("PLACE-LIST", at, u.Out.Pos, s.el != nil && tail[s.el], "the list has %v", s.el)
			delete(tail, s.el)
		}
		for j, b := range ev.Bodies {
			var made []*Term
			for _, e := range b.Events {
				if e.Kind == "invoke" && e.Name == pAmm+".Orderer.Order" {
					made = append(made, e.Res)
				}
			}
			switch len(made) {
			case 0:
				r.ob("PLACE-LIST", at, ev.Pos, mi.Backs[j].Val == m, "the list becomes %v", mi.Backs[j].Val)
			case 1:
				el, pos, ok := inserted(b.Facts, m, mi.Backs[j].Val)
				r.ob("PLACE-LIST", at, ev.Pos, ok && el == made[0] && (pos == nil || linSame(b.Facts, pos, mkLen(m))), "the list becomes %v", mi.Backs[j].Val)
			default:
				r.ob("PLACE-LIST", at, ev.Pos, false, "%d orders in a round", len(made))
			}
		}
	}
	r.ob("PLACE-LIST", at, u.Out.Pos, len(tail) == 0, "an order made is not listed")
}

// tickWalk: p starts at a tick within the far end of the range and only moves
// away from it.
func (w *World) tickWalk(top, u *Unit, p, low, high, prec *Term, buy bool, dec types.Type) (bool, string) {
	ev := muLoop(top, p)
	if ev == nil {
		return false, "an order is placed at " + p.String()
	}
	mi := ev.Mus[p]
	snap, step := pAmm+".PriceToDownTick", pAmm+".DownTick"
	if !buy {
		snap, step = pAmm+".PriceToUpTick", pAmm+".UpTick"
	}
	onTick := func(t *Term) *Term {
		if t != nil && t.Op == "call" && t.Name == snap && t.Args[1] == prec {
			return t.Args[0]
		}
		return nil
	}
	in := onTick(mi.Init)
	ok := false
	if in != nil {
		if buy {
			ok = leq(top.Facts, in, high)
		} else {
			ok = in.Op == "max" && (in.Args[0] == low || in.Args[1] == low) || leq(top.Facts, low, in)
		}
	}
	if !ok {
		return false, "the first tick is " + mi.Init.String()
	}
	for i, b := range mi.Backs {
		t := b.Val
		if t == p {
			continue
		}
		if t != nil && t.Op == "call" && t.Name == step && t.Args[0] == p && t.Args[1] == prec {
			continue
		}
		if x := onTick(t); x != nil && w.scaledBy(ev.Bodies[i].Facts, x, p, buy) {
			continue
		}
		return false, "the next tick is " + t.String()
	}
	f := u.Facts
	if buy {
		ok = f.has(geL(p, low, false))
	} else {
		ok = f.has(geL(high, p, false))
	}
	if !ok {
		return false, "an order is placed beyond the end of the range"
	}
	return true, ""
}

// scaledBy: x is p made smaller (larger) by a gap ratio.
func (w *World) scaledBy(f *Facts, x, p *Term, down bool) bool {
	if x == p {
		return true
	}
	if x.Op != "call" || x.Name != mathDec+".Mul" {
		return false
	}
	c := x.Args[0]
	if c == p {
		c = x.Args[1]
	} else if x.Args[1] != p {
		return false
	}
	one := w.globalT(pAmm, "oneDec")
	d := linAdd(c, one, -1, w.decType())
	if down {
		d = linAdd(one, c, -1, w.decType())
	}
	return d.Op == "call" && d.Name == pAmm+".poolOrderPriceGapRatio"
}

// poolOrdersBoth: the orders of a pool are those of both sides.
func (r *R) poolOrdersBoth(w *World) {
	x := w.run(w.P.fn(pAmm, "", "PoolOrders"), "PoolBuyOrders", "PoolSellOrders")
	at := "amm.PoolOrders"
	r.ob("BOTH", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	b, s := callT(pAmm+".PoolBuyOrders", x.Args...), callT(pAmm+".PoolSellOrders", x.Args...)
	for _, o := range x.rets() {
		n := map[*Term]int{}
		for _, g := range segments(o.Vals[0]) {
			if g.list != nil && g.whole() {
				n[g.list]++
			} else {
				n[nil]++
			}
		}
		r.ob("BOTH", at, o.Pos, len(n) == 2 && n[b] == 1 && n[s] == 1, "a pool's orders are %v", o.Vals[0])
	}
}

// poolOrderMade: the order made for a pool is the pool's, offers what it
// offers and demands what it demands.
func (r *R) poolOrderMade(w *World) {
	t := w.P.namedType(pTypes, "PoolOrderer")
	if !r.ob("MADE", "types.PoolOrderer", 0, t != nil, "no maker of pool orders") {
		return
	}
	fn := w.ptrMethod(t, "Order")
	x := w.run(fn)
	at := "types.PoolOrderer.Order"
	r.ob("MADE", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	src := mk("deref", "", t, x.Args[0])
	from := func(n string) *Term { return mkField(src, t, fieldIdx(t, n)) }
	ot := w.P.namedType(pTypes, "PoolOrder")
	bt := w.P.namedType(pAmm, "BaseOrder")
	for _, o := range x.rets() {
		v := o.Vals[0]
		if v.Op == "iface" {
			v = v.Args[0]
		}
		cell := o.St.mem[v]
		if !r.ob("MADE", at, o.Pos, cell != nil && ot != nil, "the order is %v", v) {
			continue
		}
		get := func(n string) *Term { return mkField(cell, ot, fieldIdx(ot, n)) }
		r.ob("MADE", at, o.Pos, get("PoolId") == from("Id"), "the order is of pool %v", get("PoolId"))
		r.ob("MADE", at, o.Pos, get("ReserveAddress") == from("ReserveAddress"), "the order is paid from %v", get("ReserveAddress"))
		bo := get("BaseOrder")
		if c := o.St.mem[bo]; c != nil {
			bo = c
		}
		base := func(n string) *Term { return mkField(bo, bt, fieldIdx(bt, n)) }
		f := o.St.facts
		d := 0
		if f.has(eqL(x.Args[1], ci(1))) {
			d = 1
		} else if f.has(eqL(x.Args[1], ci(2))) {
			d = 2
		}
		r.ob("MADE", at, o.Pos, base("Direction") == x.Args[1] || d > 0 && base("Direction") == ci(d), "the direction is %v", base("Direction"))
		r.ob("MADE", at, o.Pos, base("Price") == x.Args[2] && base("Amount") == x.Args[3] && base("OpenAmount") == x.Args[3], "the order is for %v at %v", base("Amount"), base("Price"))
		if d == 0 {
			continue
		}
		off, dem := from("QuoteCoinDenom"), from("BaseCoinDenom")
		if d == 2 {
			off, dem = dem, off
		}
		r.ob("MADE-COINS", at, o.Pos, get("OfferCoinDenom") == off && get("DemandCoinDenom") == dem, "the order offers %v for %v", get("OfferCoinDenom"), get("DemandCoinDenom"))
	}
	r.floor("MADE-COINS", 1)
}

// gapRatio: the gap between a pool's ticks is never negative.
func (r *R) gapRatio(w *World) {
	x := w.run(w.P.fn(pAmm, "", "poolOrderPriceGapRatio"))
	at := "amm.poolOrderPriceGapRatio"
	r.ob("GAP", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	for _, o := range x.rets() {
		lo, hi := spanOf(o.St.facts, o.Vals[0], 0)
		ok := lo != nil && lo.Sign() > 0 && hi != nil && hi.Cmp(big.NewRat(1, 1)) < 0
		r.ob("GAP", at, o.Pos, ok, "the gap is between %v and %v", lo, hi)
	}
	r.floor("GAP", 1)
}

// decOf is the value of a constant decimal.
func decOf(t *Term) *big.Rat {
	if v, ok := t.intVal(); ok {
		return new(big.Rat).SetInt(v)
	}
	if t.Op == "todec" {
		return decOf(t.Args[0])
	}
	if t.Op != "call" {
		return nil
	}
	num := func(i int) *big.Int {
		v, ok := t.Args[i].intVal()
		if !ok {
			return nil
		}
		return v
	}
	switch t.Name {
	case pMath + ".LegacyMustNewDecFromStr":
		s, ok := strOf(t.Args[0])
		if !ok {
			return nil
		}
		v, ok := new(big.Rat).SetString(s)
		if !ok {
			return nil
		}
		return v
	case pMath + ".LegacyNewDecWithPrec":
		if n, d := num(0), num(1); n != nil && d != nil {
			return new(big.Rat).SetFrac(n, new(big.Int).Exp(big.NewInt(10), d, nil))
		}
	case pMath + ".NewIntWithDecimal":
		if n, d := num(0), num(1); n != nil && d != nil {
			return new(big.Rat).SetInt(new(big.Int).Mul(n, new(big.Int).Exp(big.NewInt(10), d, nil)))
		}
	}
	return nil
}

func strOf(t *Term) (string, bool) {
	if t.Op == "str" {
		return t.Name, true
	}
	if t.Op == "call" && t.Name == "strings.ReplaceAll" && len(t.Args) == 3 {
		a, ok1 := strOf(t.Args[0])
		b, ok2 := strOf(t.Args[1])
		c, ok3 := strOf(t.Args[2])
		return strings.ReplaceAll(a, b, c), ok1 && ok2 && ok3
	}
	return "", false
}

// spanOf bounds a decimal; a nil end is unbounded.
func spanOf(f *Facts, t *Term, depth int) (lo, hi *big.Rat) {
	if v := decOf(t); v != nil {
		return v, v
	}
	if depth > 6 {
		return nil, nil
	}
	zero := new(big.Rat)
	switch t.Op {
	case "param":
		lo = zero // prices are not negative
	case "lin":
		l := toLin(t)
		lo, hi = new(big.Rat).SetInt(l.c), new(big.Rat).SetInt(l.c)
		for a, c := range l.co {
			x, y := spanOf(f, a, depth+1)
			if c.Sign() < 0 {
				x, y = y, x
			}
			k := new(big.Rat).SetInt(c)
			if lo != nil && x != nil {
				lo = new(big.Rat).Add(lo, new(big.Rat).Mul(k, x))
			} else {
				lo = nil
			}
			if hi != nil && y != nil {
				hi = new(big.Rat).Add(hi, new(big.Rat).Mul(k, y))
			} else {
				hi = nil
			}
		}
	case "max", "min":
		a, b := spanOf(f, t.Args[0], depth+1)
		c, d := spanOf(f, t.Args[1], depth+1)
		pick := func(x, y *big.Rat, larger bool) *big.Rat {
			if (x.Cmp(y) > 0) == larger {
				return x
			}
			return y
		}
		if a != nil && c != nil {
			lo = pick(a, c, t.Op == "max")
		} else if t.Op == "max" {
			lo = a
			if a == nil {
				lo = c
			}
		}
		if b != nil && d != nil {
			hi = pick(b, d, t.Op == "max")
		} else if t.Op == "min" {
			hi = b
			if b == nil {
				hi = d
			}
		}
	case "call":
		switch t.Name {
		case mathDec + ".Abs":
			lo = zero
		case mathDec + ".Mul", mathDec + ".MulTruncate", mathDec + ".MulRoundUp":
			a, b := spanOf(f, t.Args[0], depth+1)
			c, d := spanOf(f, t.Args[1], depth+1)
			if a != nil && c != nil && a.Sign() >= 0 && c.Sign() >= 0 {
				lo = new(big.Rat).Mul(a, c)
				if b != nil && d != nil {
					hi = new(big.Rat).Mul(b, d)
				}
			}
		case mathDec + ".Quo", mathDec + ".QuoTruncate", mathDec + ".QuoRoundUp":
			a, b := spanOf(f, t.Args[0], depth+1)
			c, d := spanOf(f, t.Args[1], depth+1)
			if a != nil && c != nil && a.Sign() >= 0 && c.Sign() >= 0 {
				lo = zero
				if d != nil && d.Sign() > 0 {
					lo = new(big.Rat).Quo(a, d)
				}
				if b != nil && c.Sign() > 0 {
					hi = new(big.Rat).Quo(b, c)
				}
			}
		}
	}
	for a, val := range f.m {
		if a.Op != "lt" {
			continue
		}
		// val: Args[0] < Args[1]
		x, y := a.Args[0], a.Args[1]
		if !val {
			x, y = y, x
		}
		if y == t {
			if v := decOf(x); v != nil && (lo == nil || v.Cmp(lo) > 0) {
				lo = v
			}
		}
		if x == t {
			if v := decOf(y); v != nil && (hi == nil || v.Cmp(hi) < 0) {
				hi = v
			}
		}
	}
	return lo, hi
}

// whole: the segment is all of its list.
func (s segment) whole() bool {
	return s.list != nil && (s.lo == nil || s.lo == ci(0)) && (s.hi == nil || s.hi == mkLen(s.list))
}
