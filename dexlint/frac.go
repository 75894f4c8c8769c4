package main

import (
	"math/big"
	"strings"
)

// Exact (real-valued) reading of numeric terms: every rounding step is
// dropped and the term becomes a quotient of polynomials over what is left,
// where the square of a square root is the value under it.

type frac struct{ n, d poly }

func fracConst(n, d int64) frac {
	return frac{polyConst(big.NewRat(n, d)), polyConst(big.NewRat(1, 1))}
}

func fracAtom(t *Term) frac { return frac{polyAtom(t), polyConst(big.NewRat(1, 1))} }

func (a frac) plus(b frac) frac {
	if a.d.key() == b.d.key() {
		return frac{a.n.plus(b.n), a.d}.reduce()
	}
	return frac{a.n.mul(b.d).plus(b.n.mul(a.d)), a.d.mul(b.d)}.reduce()
}

func (a frac) mul(b frac) frac { return frac{a.n.mul(b.n), a.d.mul(b.d)}.reduce() }
func (a frac) inv() frac       { return frac{a.d, a.n} }
func (a frac) neg() frac       { return frac{a.n.scale(big.NewRat(-1, 1)), a.d} }
func (a frac) minus(b frac) frac {
	return a.plus(b.neg())
}
func (a frac) quo(b frac) frac { return a.mul(b.inv()) }
func (a frac) zero() bool      { return len(a.n) == 0 && len(a.d) > 0 }

func (a frac) equal(b frac) bool {
	return len(a.d) > 0 && len(b.d) > 0 && a.minus(b).zero()
}

// rootOf is what the square root is taken of.
func rootOf(t *Term) *Term {
	if t.Op == "call" && t.Name == nSqrt && len(t.Args) == 1 {
		return t.Args[0]
	}
	if t.Op == "proj" && t.Args[0].Op == "call" && t.Args[0].Name == mathDec+".ApproxSqrt" && t == proj(t.Args[0], 0) {
		return t.Args[0].Args[0]
	}
	return nil
}

// reduce clears negative exponents and squares of square roots.
func (a frac) reduce() frac {
	for i := 0; i < 50; i++ {
		low := mono{}
		var sq *Term
		for _, p := range []poly{a.n, a.d} {
			for _, x := range p {
				for t, e := range x.m {
					if e < low[t] {
						low[t] = e
					}
					if e >= 2 && rootOf(t) != nil {
						sq = t
					}
				}
			}
		}
		if len(low) > 0 {
			m := mono{}
			for t, e := range low {
				m[t] = -e
			}
			up := poly{}
			up.add(m, big.NewRat(1, 1))
			a = frac{a.n.mul(up), a.d.mul(up)}
			continue
		}
		if sq == nil {
			break
		}
		v := fracOf(rootOf(sq))
		n, d := squares(a.n, sq, v), squares(a.d, sq, v)
		// both are over powers of the denominator of v
		a = frac{n.n.mul(d.d), d.n.mul(n.d)}
	}
	return a.common()
}

// common drops a factor every monomial has.
func (a frac) common() frac {
	var m mono
	first := true
	for _, p := range []poly{a.n, a.d} {
		for _, x := range p {
			if first {
				m = mono{}
				for t, e := range x.m {
					m[t] = e
				}
				first = false
				continue
			}
			for t, e := range m {
				if x.m[t] < e {
					m[t] = x.m[t]
				}
				if m[t] <= 0 {
					delete(m, t)
				}
			}
		}
	}
	if len(m) == 0 || len(a.n) == 0 {
		return a
	}
	down := poly{}
	dm := mono{}
	for t, e := range m {
		dm[t] = -e
	}
	down.add(dm, big.NewRat(1, 1))
	return frac{a.n.mul(down), a.d.mul(down)}
}

// squares replaces sq^(2k+r) by v^k sq^r.
func squares(p poly, sq *Term, v frac) frac {
	most := 0
	for _, x := range p {
		if k := x.m[sq] / 2; k > most {
			most = k
		}
	}
	pow := func(b poly, k int) poly {
		r := polyConst(big.NewRat(1, 1))
		for ; k > 0; k-- {
			r = r.mul(b)
		}
		return r
	}
	n := poly{}
	for _, x := range p {
		k := x.m[sq] / 2
		m := mono{}
		for t, e := range x.m {
			m[t] = e
		}
		m[sq] -= 2 * k
		if m[sq] == 0 {
			delete(m, sq)
		}
		one := poly{}
		one.add(m, x.c)
		n = n.plus(one.mul(pow(v.n, k)).mul(pow(v.d, most-k)))
	}
	return frac{n, pow(v.d, most)}
}

var fracMemo = map[*Term]frac{}

func fracOf(t *Term) frac {
	if v, ok := fracMemo[t]; ok {
		return v
	}
	v := fracOf0(t)
	fracMemo[t] = v
	return v
}

func fracOf0(t *Term) frac {
	if v, ok := t.intVal(); ok {
		return frac{polyConst(new(big.Rat).SetInt(v)), polyConst(big.NewRat(1, 1))}
	}
	switch t.Op {
	case "todec":
		return fracOf(t.Args[0])
	case "lin":
		l := toLin(t)
		s := frac{polyConst(new(big.Rat).SetInt(l.c)), polyConst(big.NewRat(1, 1))}
		for a, c := range l.co {
			x := fracOf(a)
			s = s.plus(frac{x.n.scale(new(big.Rat).SetInt(c)), x.d})
		}
		return s
	case "call":
	default:
		return fracAtom(t)
	}
	if !strings.HasPrefix(t.Name, mathInt+".") && !strings.HasPrefix(t.Name, mathDec+".") {
		return fracAtom(t)
	}
	_, meth := methodKey(t.Name)
	switch meth {
	case "Mul", "MulTruncate", "MulRoundUp", "MulInt", "MulInt64", "MulRaw":
		return fracOf(t.Args[0]).mul(fracOf(t.Args[1]))
	case "Quo", "QuoTruncate", "QuoRoundUp", "QuoInt", "QuoInt64", "QuoRaw":
		return fracOf(t.Args[0]).quo(fracOf(t.Args[1]))
	case "Ceil", "TruncateInt", "TruncateDec", "RoundInt", "RoundInt64", "TruncateInt64":
		return fracOf(t.Args[0])
	case "Power":
		if k, ok := t.Args[1].intVal(); ok && k.IsInt64() && k.Int64() >= 0 && k.Int64() <= 4 {
			r := fracConst(1, 1)
			for i := int64(0); i < k.Int64(); i++ {
				r = r.mul(fracOf(t.Args[0]))
			}
			return r
		}
	}
	return fracAtom(t)
}

// positiveIn: every monomial with the atom has a positive coefficient, and so
// have all in the denominator: the value grows with the atom.
func (a frac) positiveIn(t *Term) bool {
	found := false
	for _, x := range a.d {
		if x.c.Sign() < 0 || x.m[t] != 0 {
			return false
		}
	}
	for _, x := range a.n {
		if x.m[t] != 0 {
			found = true
			if x.c.Sign() < 0 {
				return false
			}
		}
	}
	return found
}
