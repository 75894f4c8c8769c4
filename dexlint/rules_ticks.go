package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P41: prices are rounded to ticks exactly. With raw value B of l+1 decimal
// digits the tick gap is 10^(l-prec) (raw), ticks are its multiples.

// digitsOf is the number of decimal digits of an integer.
func digitsOf(raw *Term) *Term { return mkLen(callT("(*math/big.Int).Text", raw, ci(10))) }

// expOf is l - prec for the raw value of a price.
func expOf(price, prec *Term) *Term {
	return linAdd(linAdd(digitsOf(rawOf(price)), ci(1), -1, nil), prec, -1, nil)
}

func rawOf(dec *Term) *Term {
	if dec.Op == "fromraw" && dec.Args[1] == ci(18) {
		return dec.Args[0]
	}
	return mk("decraw", "", nil, dec)
}

func tenTo(e *Term) *Term { return callT(mathInt+".Exp", ci(10), e) }

func fromRaw(x *Term) *Term { return mk("fromraw", "", nil, x, ci(18)) }

func (w *World) tickFn(r *R, rule, name string, opaque ...string) *FnRun {
	fn := w.P.fn(pAmm, "", name)
	if fn == nil {
		r.ob(rule, "amm."+name, 0, false, "no such function")
		return &FnRun{}
	}
	x := w.run(fn, opaque...)
	r.ob(rule, "amm."+name, fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s: %s", name, x.Err)
	return x
}

// onlyZeroPanics: it fails for nothing but a price of zero.
func (r *R) onlyZeroPanics(rule, name string, x *FnRun, prices ...*Term) {
	for _, o := range x.Outs {
		if o.Kind == "ret" {
			continue
		}
		ok := false
		for a, v := range o.Facts().m { // what is left of a price is zero only if the price is
			if a.Op == "eq" && v && a.Args[0] == ci(0) {
				t := a.Args[1]
				for t.Op == "call" && t.Name == nDownTick {
					t = t.Args[0]
				}
				ok = ok || indexTerm(prices, t) >= 0
			}
		}
		for _, p := range prices {
			ok = ok || o.Facts().has(eqL(p, ci(0))) || o.Facts().has(eqL(rawOf(p), ci(0)))
		}
		r.ob(rule, "amm."+name, o.Pos, ok, "panics on %s", factList(o.Facts()))
	}
}

func ruleP41(w *World, r *R) {
	amm := func(n string) string { return "amm." + n }
	down := func(p, prec *Term) *Term { return callT(nDownTick, p, prec) }

	// the highest tick that is not above the price
	x := w.tickFn(r, "DOWN", "PriceToDownTick")
	for _, o := range x.rets() {
		price, prec := x.Args[0], x.Args[1]
		f, v := o.Facts(), o.Vals[0]
		e := expOf(price, prec)
		switch {
		case v == price:
			r.ob("DOWN", amm("PriceToDownTick"), o.Pos, intAtLeast0(f, linNeg(e, nil)), "a price is left as it is although it may have too many digits")
		case v.Op == "fromraw" && v.Args[1] == ci(18):
			ok := false
			raw := rawOf(price)
			p := tenTo(e)
			q := callT(mathInt+".Quo", raw, p)
			ok = v.Args[0] == callT(mathInt+".Mul", sort2(p, q)...) || v.Args[0] == linAdd(raw, callT(mathInt+".Mod", raw, p), -1, nil)
			r.ob("DOWN", amm("PriceToDownTick"), o.Pos, ok && intAtLeast0(f, e), "a price becomes %v", v)
		default:
			r.ob("DOWN", amm("PriceToDownTick"), o.Pos, false, "a price becomes %v", v)
		}
	}
	r.onlyZeroPanics("DOWN", "PriceToDownTick", x, x.Args...)

	// steps between ticks
	gapAt := func(price, prec *Term) []*Term {
		var gs []*Term
		for i := 0; i < 3; i++ {
			gs = append(gs, fromRaw(tenTo(expOf(price, prec))))
			price = down(price, prec)
		}
		return gs
	}
	x = w.tickFn(r, "GAP", "TickGap", "amm.PriceToDownTick")
	for _, o := range x.rets() {
		r.ob("GAP", amm("TickGap"), o.Pos, indexTerm(gapAt(x.Args[0], x.Args[1]), o.Vals[0]) >= 0, "the gap is %v", o.Vals[0])
	}
	if len(x.Args) > 1 {
		r.onlyZeroPanics("GAP", "TickGap", x, x.Args[0], down(x.Args[0], x.Args[1]))
	}

	x = w.tickFn(r, "UP-TICK", "UpTick", "amm.PriceToDownTick")
	for _, o := range x.rets() {
		price, prec := x.Args[0], x.Args[1]
		t := down(price, prec)
		ok := false
		for _, g := range gapAt(price, prec) {
			ok = ok || o.Vals[0] == linAdd(t, g, 1, nil) || o.Facts().has(eqL(t, price)) && o.Vals[0] == linAdd(price, g, 1, nil)
		}
		r.ob("UP-TICK", amm("UpTick"), o.Pos, ok, "the next tick is %v", o.Vals[0])
	}
	if len(x.Args) > 1 {
		r.onlyZeroPanics("UP-TICK", "UpTick", x, x.Args[0], down(x.Args[0], x.Args[1]))
	}

	x = w.tickFn(r, "UP", "PriceToUpTick", "amm.PriceToDownTick", "amm.UpTick")
	for _, o := range x.rets() {
		price, prec := x.Args[0], x.Args[1]
		f, v := o.Facts(), o.Vals[0]
		t := down(price, prec)
		up := callT(nUpStep, t, prec)
		switch {
		case f.has(eqL(t, price)):
			r.ob("UP", amm("PriceToUpTick"), o.Pos, v == t || v == price, "a price on a tick becomes %v", v)
		case f.has(neL(t, price)):
			r.ob("UP", amm("PriceToUpTick"), o.Pos, v == up || v == callT(nUpStep, price, prec), "a price between ticks becomes %v", v)
		default:
			r.ob("UP", amm("PriceToUpTick"), o.Pos, false, "whether the price is on a tick does not matter")
		}
	}
	if len(x.Args) > 1 {
		r.onlyZeroPanics("UP", "PriceToUpTick", x, x.Args[0])
	}

	r.ruleDownTick(w)

	// the ends of the scale
	x = w.tickFn(r, "LOWEST", "LowestTick", "amm.PriceToDownTick")
	for _, o := range x.rets() {
		prec := x.Args[0]
		v := o.Vals[0]
		ok := v == fromRaw(tenTo(prec)) || v == callT(pMath+".LegacyNewDecWithPrec", ci(1), linAdd(ci(18), prec, -1, nil))
		r.ob("LOWEST", amm("LowestTick"), o.Pos, ok, "the lowest tick is %v", v)
	}
	x = w.tickFn(r, "HIGHEST", "HighestTick", "amm.PriceToDownTick")
	for _, o := range x.rets() {
		v := o.Vals[0]
		ok := v.Op == "call" && v.Name == nDownTick && v.Args[1] == x.Args[0] && v.Args[0].Op == "fromraw" && v.Args[0].Args[1] == ci(18)
		if ok {
			n, isInt := v.Args[0].Args[0].intVal()
			// at least 2^256 to be of use, and products of a price and an
			// amount must fit the 315 bits of a decimal
			ok = isInt && n.Sign() > 0 && n.BitLen() >= 256 && n.BitLen() <= 312
		}
		r.ob("HIGHEST", amm("HighestTick"), o.Pos, ok, "the highest tick is %v", v)
	}

	// ticks are numbered without gaps: index = (l-prec)*9*10^prec + (first
	// prec+1 digits) - 10^prec
	r.ruleTickIndex(w)

	// methods say what the functions say
	n := 0
	for _, fn := range w.P.fnsOf(pAmm) {
		if fn.Signature.Recv() == nil || fn.Blocks == nil || fn.Synthetic != "" || typeName(fn.Signature.Recv().Type()) != pAmm+".TickPrecision" {
			continue
		}
		g := w.P.fn(pAmm, "", fn.Name())
		if !r.ob("METHOD", amm("TickPrecision."+fn.Name()), fn.Pos(), g != nil, "nothing to agree with") || fn.Name() == "RandomTick" {
			continue
		}
		n++
		y := w.run(fn, "amm."+fn.Name())
		r.ob("METHOD", amm("TickPrecision."+fn.Name()), fn.Pos(), y.Err == "" && len(y.Outs) == 1, "cannot analyse it: %s", y.Err)
		for _, o := range y.rets() {
			as := append(append([]*Term{}, y.Args[1:]...), y.Args[0])
			got := o.Vals[0]
			ok := got.Op == "call" && got.Name == pAmm+"."+fn.Name() && len(got.Args) == len(as)
			for i := range as {
				ok = ok && unconv(got.Args[i]) == as[i]
			}
			r.ob("METHOD", amm("TickPrecision."+fn.Name()), o.Pos, ok, "it answers with %v", got)
		}
	}
	r.floor("METHOD", 10)
}

const nUpStep = pAmm + ".UpTick"

// pow10Tests are the functions DownTick uses to tell powers of ten.
func (w *World) pow10Tests() []*ssa.Function {
	var fns []*ssa.Function
	down := w.P.fn(pAmm, "", "DownTick")
	if down == nil {
		return nil
	}
	for _, fn := range w.reach([]*ssa.Function{down}) {
		s := fn.Signature
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pAmm || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 || len(fn.Blocks) == 0 {
			continue
		}
		if b, ok := s.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && typeName(s.Params().At(0).Type()) == pMath+".LegacyDec" {
			fns = append(fns, fn)
		}
	}
	return fns
}

// ruleDownTick: below a power of ten the gap is a tenth.
func (r *R) ruleDownTick(w *World) {
	tests := w.pow10Tests()
	opaque := []string{"amm.PriceToDownTick"}
	for _, fn := range tests {
		opaque = append(opaque, "amm."+fn.Name())
		r.rulePow10(w, fn)
	}
	at := "amm.DownTick"
	x := w.tickFn(r, "DOWN-TICK", "DownTick", opaque...)
	for _, o := range x.rets() {
		price, prec := x.Args[0], x.Args[1]
		f, v := o.Facts(), o.Vals[0]
		t := callT(nDownTick, price, prec)
		pow := 0
		for _, fn := range tests {
			for _, p := range []*Term{price, t} {
				c := callT(pAmm+"."+fn.Name(), p)
				if f.has(Lit{c, true}) {
					pow = 1
				} else if f.has(Lit{c, false}) {
					pow = -1
				}
			}
		}
		sub := func(n int64) bool {
			for _, p := range []*Term{price, t} {
				g := fromRaw(tenTo(linAdd(expOf(p, prec), ci(int(n)), -1, nil)))
				if v == linAdd(price, g, -1, nil) || v == linAdd(t, g, -1, nil) {
					return true
				}
			}
			return false
		}
		switch {
		case f.has(neL(t, price)):
			r.ob("DOWN-TICK", at, o.Pos, v == t, "below a price between ticks there is %v", v)
		case f.has(eqL(t, price)):
			r.ob("DOWN-TICK", at, o.Pos, pow == 1 && sub(1) || pow == -1 && sub(0), "below a tick there is %v", v)
		default:
			r.ob("DOWN-TICK", at, o.Pos, false, "whether the price is on a tick does not matter")
		}
	}
	if len(x.Args) > 1 {
		r.onlyZeroPanics("DOWN-TICK", "DownTick", x, x.Args[0])
	}
}

// rulePow10: true exactly for powers of ten: divides by ten as long as nothing
// remains, and ends at one.
func (r *R) rulePow10(w *World, fn *ssa.Function) {
	at := "amm." + fn.Name()
	x := w.run(fn)
	if !r.ob("POW10", at, fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse it: %s", x.Err) {
		return
	}
	raw := rawOf(x.Args[0])
	mod := func(v *Term) *Term { return callT(mathInt+".Mod", v, ci(10)) }
	// loops that divide what is left of the value by ten while nothing remains
	left := []*Term{raw}
	for _, u := range x.units() {
		for _, ev := range u.Events {
			if ev.Kind != "loop" {
				continue
			}
			for m, mi := range ev.Mus {
				if mi.Init != raw || indexTerm(left, m) >= 0 {
					continue
				}
				ok := true
				for i, b := range mi.Backs {
					facts := ev.Bodies[i].Facts
					step := b.Val == callT(mathInt+".Quo", m, ci(10)) && facts.has(eqL(mod(m), ci(0))) && facts.has(ltL(ci(1), m, false))
					r.ob("POW10", at, ev.Pos, step, "%v goes on as %v", m, b.Val)
					ok = ok && step
				}
				if ok {
					left = append(left, m)
				}
			}
		}
	}
	for _, u := range x.units() {
		f := u.Facts
		// the numbers this path looks at: the value, or what is left of it
		vals := append([]*Term{}, left...)
		for i := 0; i < len(vals) && i < 8; i++ {
			q := callT(mathInt+".Quo", vals[i], ci(10))
			if f.mentions(q) && indexTerm(vals, q) < 0 && f.has(eqL(mod(vals[i]), ci(0))) {
				vals = append(vals, q)
			}
		}
		if u.Loop != nil {
			continue
		}
		if u.Out == nil || u.Out.Kind != "ret" {
			r.ob("POW10", at, u.pos(), u.Out == nil, "it panics")
			continue
		}
		v := u.Out.Vals[0]
		// the power of ten with as many digits
		top := tenTo(linAdd(digitsOf(raw), ci(1), -1, nil))
		split := func(want bool) *Facts {
			if v == constBool(true) || v == constBool(false) {
				if (v == constBool(true)) == want {
					return f
				}
				return nil
			}
			return f.assume(v, want)
		}
		if g := split(true); g != nil {
			ok := g.has(eqL(raw, top))
			for _, n := range vals {
				for _, c := range []int{1, 10} {
					ok = ok || g.has(eqL(n, ci(c)))
				}
			}
			r.ob("POW10", at, u.pos(), ok, "true although it was not brought down to one: %s", factList(g))
		}
		if g := split(false); g != nil {
			ok := g.has(neL(raw, top)) || g.has(ltL(raw, top, false)) || g.has(ltL(top, raw, false))
			for _, n := range vals {
				above := g.has(ltL(ci(1), n, false)) || g.has(geL(n, ci(2), false))
				ok = ok || g.has(ltL(n, ci(1), false)) || g.has(geL(ci(0), n, false)) ||
					above && (g.has(ltL(n, ci(10), false)) || g.has(neL(mod(n), ci(0))))
			}
			r.ob("POW10", at, u.pos(), ok, "false although it may be a power of ten: %s", factList(g))
		}
	}
}

// unconv looks through conversions between integer types.
func unconv(t *Term) *Term {
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// intAtLeast0: an integer is at least zero, because of a bound that is as strong.
func intAtLeast0(f *Facts, t *Term) bool {
	if n, ok := t.intVal(); ok {
		return n.Sign() >= 0
	}
	for a, v := range f.m {
		if a.Op != "lt" && a.Op != "eq" {
			continue
		}
		var ds []*Term // known to be at least zero
		switch {
		case a.Op == "lt" && v:
			ds = append(ds, linAdd(linAdd(a.Args[1], a.Args[0], -1, nil), ci(1), -1, nil))
		case a.Op == "lt":
			ds = append(ds, linAdd(a.Args[0], a.Args[1], -1, nil))
		case v:
			ds = append(ds, linAdd(a.Args[0], a.Args[1], -1, nil), linAdd(a.Args[1], a.Args[0], -1, nil))
		}
		for _, d := range ds {
			if n, ok := linAdd(t, d, -1, nil).intVal(); ok && n.Sign() >= 0 {
				return true
			}
		}
	}
	return false
}

// mentions: some fact speaks of the term.
func (f *Facts) mentions(t *Term) bool {
	for a := range f.m {
		if a.containsTerm(t) {
			return true
		}
	}
	return false
}

// polyOf expands a term over + - * into monomials over what is left.
func polyOf(t *Term) map[string]*big.Int {
	res := map[string]*big.Int{}
	add := func(k string, c *big.Int) {
		if x := res[k]; x != nil {
			c = new(big.Int).Add(x, c)
		}
		if c.Sign() == 0 {
			delete(res, k)
		} else {
			res[k] = c
		}
	}
	prod := func(a, b map[string]*big.Int, c *big.Int) {
		for ka, ca := range a {
			for kb, cb := range b {
				ks := append(strings.Fields(ka), strings.Fields(kb)...)
				sort.Strings(ks)
				add(strings.Join(ks, " "), new(big.Int).Mul(c, new(big.Int).Mul(ca, cb)))
			}
		}
	}
	one := map[string]*big.Int{"": big.NewInt(1)}
	t = unconv(t)
	if n, ok := t.intVal(); ok {
		add("", n)
		return res
	}
	switch {
	case t.Op == "lin":
		l := toLin(t)
		add("", l.c)
		for x, c := range l.co {
			prod(polyOf(x), one, c)
		}
	case t.Op == "bin" && t.Name == "*" || t.Op == "call" && t.Name == mathInt+".Mul":
		prod(polyOf(t.Args[0]), polyOf(t.Args[1]), big.NewInt(1))
	case t.Op == "call" && (t.Name == "(*math/big.Int).Int64" || t.Name == mathInt+".Int64"):
		return polyOf(t.Args[0])
	default:
		add("t"+strconv.Itoa(t.ID), big.NewInt(1))
	}
	return res
}

func samePoly(a, b *Term) bool {
	x, y := polyOf(a), polyOf(b)
	if len(x) != len(y) {
		return false
	}
	for k, c := range x {
		if y[k] == nil || y[k].Cmp(c) != 0 {
			return false
		}
	}
	return true
}

// tensOf: the ways to write 10^prec as an int.
func tensOf(prec *Term) []*Term {
	return []*Term{callT("math.Pow10", prec), tenTo(prec)}
}

func (r *R) ruleTickIndex(w *World) {
	at := "amm.TickToIndex"
	x := w.tickFn(r, "INDEX", "TickToIndex")
	for _, o := range x.Outs {
		if o.Kind != "ret" {
			r.ob("INDEX", at, o.Pos, o.Facts().has(eqL(x.Args[0], ci(0))), "panics on %s", factList(o.Facts()))
			continue
		}
		price, prec := x.Args[0], x.Args[1]
		f := o.Facts()
		raw := rawOf(price)
		e := expOf(price, prec)
		ok := false
		for _, p := range tensOf(prec) {
			for _, digits := range []*Term{raw, callT(mathInt+".Quo", raw, tenTo(e))} {
				if digits == raw && !intAtLeast0(f, linNeg(e, nil)) || digits != raw && !intAtLeast0(f, e) {
					continue
				}
				want := linAdd(linAdd(mk("bin", "*", nil, linMul(e, 9), p), digits, 1, nil), p, -1, nil)
				ok = ok || samePoly(o.Vals[0], want)
			}
		}
		r.ob("INDEX", at, o.Pos, ok, "the index of a price is %v", o.Vals[0])
	}

	at = "amm.TickFromIndex"
	x = w.tickFn(r, "FROM-INDEX", "TickFromIndex")
	for _, o := range x.Outs {
		if !r.ob("FROM-INDEX", at, o.Pos, o.Kind == "ret", "panics") {
			continue
		}
		i, prec := x.Args[0], x.Args[1]
		f, v := o.Facts(), o.Vals[0]
		ok := v.Op == "fromraw" && v.Args[1] == ci(18)
		// q = i / (9p), m = i % (9p)
		var q *Term
		find := func(t *Term) {
			t.walk(func(y *Term) bool {
				if y.Op == "bin" && y.Name == "/" && y.Args[0] == i {
					for _, p := range tensOf(prec) {
						if samePoly(y.Args[1], linMul(p, 9)) {
							q = y
						}
					}
				}
				return q == nil
			})
		}
		for a := range f.m {
			find(a)
		}
		find(v)
		if ok = ok && q != nil; ok {
			m := mk("bin", "%", nil, i, q.Args[1])
			m2 := linAdd(i, mk("bin", "*", nil, sort2(q, q.Args[1])...), -1, nil)
			found := false
			for _, p := range tensOf(prec) {
				for _, rem := range []*Term{m, m2} {
					t := linAdd(p, rem, 1, nil)
					if samePoly(v.Args[0], t) && intAtLeast0(f, linNeg(q, nil)) {
						found = true
					}
					if samePoly(v.Args[0], mk("bin", "*", nil, t, tenTo(q))) && intAtLeast0(f, q) {
						found = true
					}
				}
			}
			ok = found
		}
		r.ob("FROM-INDEX", at, o.Pos, ok, "the tick at an index is %v", v)
	}

	at = "amm.RoundTickIndex"
	x = w.tickFn(r, "ROUND-INDEX", "RoundTickIndex")
	for _, o := range x.Outs {
		if !r.ob("ROUND-INDEX", at, o.Pos, o.Kind == "ret", "panics") {
			continue
		}
		i, v := x.Args[0], o.Vals[0]
		odd := mk("bin", "%", nil, i, ci(2))
		ok := samePoly(v, linMul(mk("bin", "/", nil, linAdd(i, ci(1), 1, nil), ci(2)), 2)) || samePoly(v, linAdd(i, odd, 1, nil)) ||
			v == i && o.Facts().has(eqL(odd, ci(0))) || samePoly(v, linAdd(i, ci(1), 1, nil)) && (o.Facts().has(eqL(odd, ci(1))) || o.Facts().has(neL(odd, ci(0))))
		r.ob("ROUND-INDEX", at, o.Pos, ok, "an index is rounded to %v", v)
	}

	at = "amm.RoundPrice"
	x = w.tickFn(r, "ROUND", "RoundPrice", "amm.PriceToDownTick", "amm.TickToIndex", "amm.TickFromIndex", "amm.RoundTickIndex")
	for _, o := range x.rets() {
		price, prec := x.Args[0], x.Args[1]
		f, v := o.Facts(), o.Vals[0]
		t := callT(nDownTick, price, prec)
		round := func(p *Term) *Term {
			return callT(pAmm+".TickFromIndex", callT(pAmm+".RoundTickIndex", callT(pAmm+".TickToIndex", p, prec)), prec)
		}
		switch {
		case f.has(eqL(t, price)):
			r.ob("ROUND", at, o.Pos, v == t || v == price, "a price on a tick becomes %v", v)
		case f.has(neL(t, price)):
			r.ob("ROUND", at, o.Pos, v == round(t) || v == round(price), "a price between ticks becomes %v", v)
		default:
			r.ob("ROUND", at, o.Pos, false, "whether the price is on a tick does not matter")
		}
	}
}

// linMul is a term times a constant.
func linMul(t *Term, n int64) *Term {
	res := ci(0)
	for i := int64(0); i < n; i++ {
		res = linAdd(res, t, 1, nil)
	}
	return res
}
