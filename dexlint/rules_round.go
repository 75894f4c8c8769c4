package main

import "math/big"

func polyProd(num []*Term, den ...*Term) poly { return newRounder(newFacts()).polyProd(num, den...) }

func (r *rounder) polyProd(num []*Term, den ...*Term) poly {
	p := polyConst(big.NewRat(1, 1))
	for _, t := range num {
		p = p.mul(r.eval(t).set[0])
	}
	for _, t := range den {
		p = p.mul(r.eval(t).set[0].inv())
	}
	return p
}

// recovered: the path went through a recovered panic.
func recovered(f *Facts) bool {
	for a, v := range f.m {
		if v && a.Op == "typeis" && a.Args[0].Op == "nonnil" {
			return true
		}
	}
	return false
}

func isZeroT(f *Facts, t *Term) bool {
	return t == ci(0) || f.has(eqL(t, ci(0))) || f.has(eqL(mkToDec(t, nil), ci(0)))
}

// P09: deposit rounding.
func ruleP09(w *World, r *R) {
	fn := w.P.fn(pAmm, "", "Deposit")
	x := w.run(fn)
	if !r.ob("ANALYSED", "amm.Deposit", 0, x.Err == "" && len(x.Args) == 5, "amm.Deposit cannot be analysed: %s", x.Err) {
		return
	}
	rx, ry, ps, dx, dy := x.Args[0], x.Args[1], x.Args[2], x.Args[3], x.Args[4]
	for _, o := range x.rets() {
		f := o.Facts()
		at := "amm.Deposit"
		if len(o.Vals) != 3 {
			r.ob("SHAPE", at, o.Pos, false, "amm.Deposit does not return three amounts")
			continue
		}
		ax, ay, pc := o.Vals[0], o.Vals[1], o.Vals[2]
		if ax == ci(0) && ay == ci(0) && pc == ci(0) {
			r.ob("REJECTED-WHOLE", at, o.Pos, true, "")
			continue
		}
		rd := newRounder(f)
		v := rd.eval(pc)
		r.ob("MINT-DOWN", at, o.Pos, v.dir == dDown && v.integer || v.dir == dExact && v.integer, "the minted amount %v is not rounded down to an integer", v)
		ideal := map[string]bool{}
		for i, s := range [][2]*Term{{rx, dx}, {ry, dy}} {
			p := polyProd([]*Term{ps, s[1]}, s[0])
			ideal[p.key()] = true
			if isZeroT(f, s[0]) {
				continue
			}
			r.ob("MINT-BOUND-"+[]string{"X", "Y"}[i], at, o.Pos, v.has(p), "the minted amount %v is not bounded by supply * deposited / reserve of the %s side", v, []string{"quote", "base"}[i])
		}
		for _, p := range v.set {
			r.ob("MINT-PROPORTIONAL", at, o.Pos, ideal[p.key()], "the minted amount is bounded by %v, which is neither side's proportional share", p)
		}
		// accepted amounts relative to the amount actually minted
		rd = newRounder(f)
		rd.atomize = func(t *Term) bool { return t == pc }
		for i, s := range [][2]*Term{{rx, ax}, {ry, ay}} {
			side := []string{"X", "Y"}[i]
			if s[1] == ci(0) && isZeroT(f, s[0]) {
				r.ob("ACCEPT-"+side, at, o.Pos, true, "")
				continue
			}
			a := rd.eval(s[1])
			p := rd.polyProd([]*Term{s[0], pc}, ps)
			ok := len(a.set) == 1 && a.has(p) && a.integer && (a.dir == dExact || a.dir == dUp)
			r.ob("ACCEPT-"+side, at, o.Pos, ok, "the accepted amount is %v, want %v rounded up", a, p)
			r.ob("ACCEPT-TIGHT-"+side, at, o.Pos, a.dir == dExact || a.tight, "the accepted amount is rounded more than once and can exceed the deposit: %v", a)
		}
	}
	r.floor("MINT-DOWN", 1)
	r.floor("ACCEPT-X", 1)
}

// P10: withdraw rounding.
func ruleP10(w *World, r *R) {
	fn := w.P.fn(pAmm, "", "Withdraw")
	x := w.run(fn)
	if !r.ob("ANALYSED", "amm.Withdraw", 0, x.Err == "" && len(x.Args) == 5, "amm.Withdraw cannot be analysed: %s", x.Err) {
		return
	}
	rx, ry, ps, pc, fee := x.Args[0], x.Args[1], x.Args[2], x.Args[3], x.Args[4]
	at := "amm.Withdraw"
	for _, o := range x.rets() {
		f := o.Facts()
		if len(o.Vals) != 2 {
			r.ob("SHAPE", at, o.Pos, false, "amm.Withdraw does not return two amounts")
			continue
		}
		whole := f.has(eqL(pc, ps))
		if whole {
			r.ob("LAST-COIN", at, o.Pos, f.same(o.Vals[0], rx) && f.same(o.Vals[1], ry), "redeeming the whole supply pays %v and %v instead of the whole reserves", o.Vals[0], o.Vals[1])
			continue
		}
		if o.Vals[0] == ci(0) && o.Vals[1] == ci(0) {
			r.ob("REJECTED-WHOLE", at, o.Pos, true, "")
			continue
		}
		for i, s := range []*Term{rx, ry} {
			v := newRounder(f).eval(o.Vals[i])
			p := polyProd([]*Term{s, pc, linAdd(ci(1), fee, -1, nil)}, ps)
			side := []string{"X", "Y"}[i]
			r.ob("PAYOUT-IDEAL-"+side, at, o.Pos, len(v.set) == 1 && v.has(p), "the payout is %v, want %v", v, p)
			r.ob("PAYOUT-DOWN-"+side, at, o.Pos, v.integer && (v.dir == dDown || v.dir == dExact), "the payout is not rounded down: %v", v)
		}
	}
	r.floor("PAYOUT-DOWN-X", 1)
	r.floor("LAST-COIN", 1)
}
