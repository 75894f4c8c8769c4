package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Rounding-direction domain. A numeric term is abstracted to the exact
// (real-valued) expression obtained by dropping every rounding step, together
// with the direction in which the computed value can deviate from it.

type dirT int

const (
	dExact dirT = iota
	dDown       // computed <= ideal
	dUp         // computed >= ideal
	dMixed
)

func (d dirT) String() string { return [...]string{"exact", "down", "up", "either way"}[d] }

func joinDir(a, b dirT) dirT {
	if a == dExact {
		return b
	}
	if b == dExact || a == b {
		return a
	}
	return dMixed
}

func flipDir(a dirT) dirT {
	switch a {
	case dDown:
		return dUp
	case dUp:
		return dDown
	}
	return a
}

// mono is a product of atoms with integer exponents.
type mono map[*Term]int

func (m mono) key() string {
	var ks []string
	for a, e := range m {
		if e != 0 {
			ks = append(ks, fmt.Sprintf("%08d^%d", a.ID, e))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "*")
}

type polyTerm struct {
	m mono
	c *big.Rat
}

// poly is a Laurent polynomial.
type poly map[string]polyTerm

func (p poly) add(m mono, c *big.Rat) {
	k := m.key()
	if x, ok := p[k]; ok {
		s := new(big.Rat).Add(x.c, c)
		if s.Sign() == 0 {
			delete(p, k)
			return
		}
		p[k] = polyTerm{x.m, s}
		return
	}
	if c.Sign() != 0 {
		p[k] = polyTerm{m, c}
	}
}

func polyConst(c *big.Rat) poly {
	p := poly{}
	p.add(mono{}, c)
	return p
}
func polyAtom(t *Term) poly {
	p := poly{}
	p.add(mono{t: 1}, big.NewRat(1, 1))
	return p
}
func (p poly) mul(q poly) poly {
	r := poly{}
	for _, a := range p {
		for _, b := range q {
			m := mono{}
			for t, e := range a.m {
				m[t] += e
			}
			for t, e := range b.m {
				m[t] += e
			}
			for t, e := range m {
				if e == 0 {
					delete(m, t)
				}
			}
			r.add(m, new(big.Rat).Mul(a.c, b.c))
		}
	}
	return r
}
func (p poly) scale(c *big.Rat) poly { return p.mul(polyConst(c)) }
func (p poly) plus(q poly) poly {
	r := poly{}
	for _, a := range p {
		r.add(a.m, a.c)
	}
	for _, a := range q {
		r.add(a.m, a.c)
	}
	return r
}
func (p poly) inv() poly {
	if len(p) == 1 {
		for _, a := range p {
			m := mono{}
			for t, e := range a.m {
				m[t] = -e
			}
			r := poly{}
			r.add(m, new(big.Rat).Inv(a.c))
			return r
		}
	}
	// quotient by a sum: an atom of its own
	r := poly{}
	r.add(mono{mk("polyinv", p.key(), nil): 1}, big.NewRat(1, 1))
	return r
}
func (p poly) key() string {
	var ks []string
	for k, a := range p {
		ks = append(ks, a.c.RatString()+":"+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " + ")
}
func (p poly) String() string {
	var ks []string
	for _, a := range p {
		s := ""
		if a.c.Cmp(big.NewRat(1, 1)) != 0 || len(a.m) == 0 {
			s = a.c.RatString()
		}
		var fs []string
		for t, e := range a.m {
			x := t.str(3)
			if e != 1 {
				x += fmt.Sprintf("^%d", e)
			}
			fs = append(fs, x)
		}
		sort.Strings(fs)
		if s != "" && len(fs) > 0 {
			s += "*"
		}
		ks = append(ks, s+strings.Join(fs, "*"))
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "0"
	}
	return strings.Join(ks, " + ")
}

// rv is an abstract value: min of the polynomials, rounded in direction dir.
type rv struct {
	set     []poly
	dir     dirT
	integer bool
	tight   bool // an integer within one unit of the exact value (single rounding)
}

func (v rv) String() string {
	var ss []string
	for _, p := range v.set {
		ss = append(ss, p.String())
	}
	s := strings.Join(ss, ", ")
	if len(ss) > 1 {
		s = "min(" + s + ")"
	}
	return s + " rounded " + v.dir.String()
}

func (v rv) keys() string {
	var ks []string
	for _, p := range v.set {
		ks = append(ks, p.key())
	}
	sort.Strings(ks)
	return strings.Join(ks, " | ")
}

func (v rv) has(p poly) bool {
	for _, q := range v.set {
		if q.key() == p.key() {
			return true
		}
	}
	return false
}

func dedup(ps []poly) []poly {
	var r []poly
	seen := map[string]bool{}
	for _, p := range ps {
		if !seen[p.key()] {
			seen[p.key()] = true
			r = append(r, p)
		}
	}
	return r
}

type rounder struct {
	f     *Facts
	atoms map[*Term]*Term // canonical atoms (e.g. integer and decimal views of one value)
	isInt func(*Term) bool
	memo  map[*Term]rv
	busy  map[*Term]bool
	// atomize keeps a term symbolic
	atomize func(*Term) bool
}

func newRounder(f *Facts) *rounder {
	return &rounder{f: f, memo: map[*Term]rv{}, busy: map[*Term]bool{}}
}

func rvAtom(t *Term, integer bool) rv {
	return rv{set: []poly{polyAtom(t)}, integer: integer}
}

func isMathInt(t *Term) bool {
	return t.Typ != nil && typeName(t.Typ) == pMath+".Int"
}

func (r *rounder) eval(t *Term) rv {
	if v, ok := r.memo[t]; ok {
		return v
	}
	if r.busy[t] {
		return rvAtom(t, isMathInt(t))
	}
	r.busy[t] = true
	v := r.eval0(t)
	// a value known not to exceed another of its kind is the minimum of both
	if t.Op == "call" {
		for a, val := range r.f.m {
			if a.Op != "lt" {
				continue
			}
			var o *Term
			if a.Args[0] == t && val {
				o = a.Args[1]
			} else if a.Args[1] == t && !val {
				o = a.Args[0]
			}
			if o == nil || r.busy[o] || o.isConst() || o.Op != "call" {
				continue
			}
			w := r.eval(o)
			if d := joinDir(v.dir, w.dir); d != dMixed && v.dir != dMixed && w.dir != dMixed {
				v = rv{set: dedup(append(append([]poly{}, v.set...), w.set...)), dir: d, integer: v.integer && w.integer}
			}
		}
	}
	delete(r.busy, t)
	r.memo[t] = v
	return v
}

func (r *rounder) prod(a, b rv) (rv, bool) {
	if len(a.set) > 1 && len(b.set) > 1 {
		return rv{}, false
	}
	var ps []poly
	for _, x := range a.set {
		for _, y := range b.set {
			ps = append(ps, x.mul(y))
		}
	}
	return rv{set: dedup(ps), dir: joinDir(a.dir, b.dir), integer: a.integer && b.integer}, true
}

func (r *rounder) quo(a, b rv) (rv, bool) {
	if len(b.set) != 1 {
		return rv{}, false
	}
	i := b.set[0].inv()
	var ps []poly
	for _, x := range a.set {
		ps = append(ps, x.mul(i))
	}
	return rv{set: dedup(ps), dir: joinDir(a.dir, flipDir(b.dir))}, true
}

func (v rv) round(d dirT) rv {
	v.dir = joinDir(v.dir, d)
	return v
}

func (r *rounder) eval0(t *Term) rv {
	if r.atomize != nil && r.atomize(t) {
		return rvAtom(t, isMathInt(t))
	}
	if v, ok := t.intVal(); ok {
		return rv{set: []poly{polyConst(new(big.Rat).SetInt(v))}, integer: true}
	}
	atom := rvAtom(t, isMathInt(t))
	switch t.Op {
	case "todec":
		v := r.eval(t.Args[0])
		v.integer = true
		return v
	case "lin":
		return r.lin(t, atom)
	case "min":
		a, b := r.eval(t.Args[0]), r.eval(t.Args[1])
		return rv{set: dedup(append(append([]poly{}, a.set...), b.set...)), dir: joinDir(a.dir, b.dir), integer: a.integer && b.integer}
	case "call":
	default:
		return atom
	}
	typ, meth := "", t.Name
	if strings.HasPrefix(t.Name, mathInt+".") || strings.HasPrefix(t.Name, mathDec+".") {
		typ, meth = methodKey(t.Name)
	} else {
		return atom
	}
	switch meth {
	case "Mul", "MulTruncate", "MulRoundUp", "MulInt", "MulInt64", "MulRaw":
		a, b := r.eval(t.Args[0]), r.eval(t.Args[1])
		if meth == "MulInt" || meth == "MulInt64" {
			b.integer = true
		}
		v, ok := r.prod(a, b)
		if !ok {
			return atom
		}
		if typ == mathInt {
			v.integer = true
		}
		if !a.integer && !b.integer && typ == mathDec {
			switch meth {
			case "MulTruncate":
				v = v.round(dDown)
			case "MulRoundUp":
				v = v.round(dUp)
			default:
				v = v.round(dMixed)
			}
		}
		return v
	case "Quo", "QuoTruncate", "QuoRoundUp", "QuoInt", "QuoInt64", "QuoRaw":
		if typ == mathInt {
			// ceil idiom: (a + b - 1) / b
			if n := t.Args[0]; n.Op == "lin" {
				x := linAdd(linAdd(n, t.Args[1], -1, nil), ci(1), 1, nil)
				if x.Op != "lin" {
					v, ok := r.quo(r.eval(x), r.eval(t.Args[1]))
					if ok {
						tight := v.dir == dExact
						v = v.round(dUp)
						v.integer, v.tight = true, tight
						return v
					}
				}
			}
		}
		v, ok := r.quo(r.eval(t.Args[0]), r.eval(t.Args[1]))
		if !ok {
			return atom
		}
		switch {
		case typ == mathInt || meth == "QuoTruncate" || meth == "QuoInt" || meth == "QuoInt64":
			if typ == mathInt {
				v.integer = true
				rem := callT(mathInt+".Mod", t.Args[0], t.Args[1])
				if r.f.has(eqL(rem, ci(0))) || r.f.has(geL(ci(0), rem, false)) {
					return v
				}
				v.tight = v.dir == dExact
			}
			v.dir = joinDir(v.dir, dDown)
		case meth == "QuoRoundUp":
			v = v.round(dUp)
		default:
			v = v.round(dMixed)
		}
		return v
	case "Ceil", "TruncateInt", "TruncateDec":
		v := r.eval(t.Args[0])
		if v.integer {
			return v
		}
		d := dDown
		if meth == "Ceil" {
			d = dUp
		}
		tight := v.dir == dExact
		v = v.round(d)
		v.integer, v.tight = true, tight
		return v
	case "RoundInt", "RoundInt64", "TruncateInt64":
		v := r.eval(t.Args[0])
		if v.integer {
			return v
		}
		v = v.round(dMixed)
		v.integer = true
		return v
	}
	return atom
}

func (r *rounder) lin(t *Term, atom rv) rv {
	l := toLin(t)
	// floor(x/y)+1 with a positive remainder is ceil(x/y)
	if len(l.co) == 1 && l.c.Cmp(big.NewInt(1)) == 0 {
		for a, c := range l.co {
			if c.Cmp(big.NewInt(1)) == 0 && a.Op == "call" && a.Name == mathInt+".Quo" {
				rem := callT(mathInt+".Mod", a.Args[0], a.Args[1])
				if r.f.has(ltL(ci(0), rem, false)) || r.f.has(neL(rem, ci(0))) {
					if v, ok := r.quo(r.eval(a.Args[0]), r.eval(a.Args[1])); ok {
						tight := v.dir == dExact
						v = v.round(dUp)
						v.integer, v.tight = true, tight
						return v
					}
				}
			}
		}
	}
	sum := []poly{polyConst(new(big.Rat).SetInt(l.c))}
	dir, integer := dExact, true
	for a, c := range l.co {
		v := r.eval(a)
		d := v.dir
		if c.Sign() < 0 {
			d = flipDir(d)
		}
		dir = joinDir(dir, d)
		integer = integer && v.integer
		var ns []poly
		if len(v.set) > 1 && (len(sum) > 1 || c.Sign() < 0) {
			return atom
		}
		for _, p := range v.set {
			for _, q := range sum {
				ns = append(ns, q.plus(p.scale(new(big.Rat).SetInt(c))))
			}
		}
		sum = ns
	}
	return rv{set: dedup(sum), dir: dir, integer: integer}
}
