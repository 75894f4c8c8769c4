package main

import (
	"go/types"
	"sort"
	"strings"
)

// Facts is an immutable-by-convention set of literals (atom -> polarity) that
// hold on every concrete execution abstracted by a state.
type Facts struct {
	m map[*Term]bool
}

func newFacts() *Facts { return &Facts{m: map[*Term]bool{}} }

func (f *Facts) with(a *Term, v bool) *Facts {
	if x, ok := f.m[a]; ok && x == v {
		return f
	}
	n := &Facts{m: make(map[*Term]bool, len(f.m)+1)}
	for k, x := range f.m {
		n.m[k] = x
	}
	n.m[a] = v
	return n
}

func (f *Facts) list() []string {
	var ss []string
	for a, v := range f.m {
		s := a.String()
		if !v {
			s = "¬" + s
		}
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return ss
}

func (f *Facts) String() string { return strings.Join(f.list(), " ∧ ") }

func isUnsigned(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// nonNeg reports whether a term is known non-negative by construction.
func nonNeg(t *Term) bool {
	if v, ok := t.intVal(); ok {
		return v.Sign() >= 0
	}
	switch t.Op {
	case "len", "cap":
		return true
	}
	return isUnsigned(t.Typ)
}

// mkLt builds the canonical literal for a < b over an ordered domain.
// integer says the domain is discrete. Returns atom and polarity; atom may be
// a bool constant.
func mkLt(a, b *Term, integer bool) (*Term, bool) {
	if a == b {
		return constBool(false), true
	}
	va, oka := a.intVal()
	vb, okb := b.intVal()
	if oka && okb {
		return constBool(va.Cmp(vb) < 0), true
	}
	if integer {
		if at, pol := ltCompare(a, b); at != nil {
			return at, pol
		}
		if oka { // c < x  <=>  not (x < c+1)
			c1 := linAdd(a, constInt(1), 1, nil)
			at, pol := mkLt(b, c1, true)
			return at, !pol
		}
		if okb {
			if v := vb.Int64(); vb.IsInt64() && nonNeg(a) {
				if v <= 0 {
					return constBool(false), true
				}
				if v == 1 { // x < 1 <=> x == 0
					return mkEq(a, constInt(0))
				}
			}
		}
	}
	if a.Op == "lin" || b.Op == "lin" {
		na, nb := splitLin(linAdd(a, b, -1, nil), a.Typ, b.Typ)
		if na != a || nb != b {
			return mkLt(na, nb, integer)
		}
	}
	return mkLtRaw(a, b, integer)
}

// ltCompare: the sign of a three-way comparison, against a constant.
func ltCompare(a, b *Term) (*Term, bool) {
	if a.Op == "compare" {
		if v, ok := b.intVal(); ok && v.IsInt64() {
			switch k := v.Int64(); {
			case k <= -1:
				return constBool(false), true
			case k == 0:
				return mkLt(a.Args[0], a.Args[1], false)
			case k == 1:
				at, pol := mkLt(a.Args[1], a.Args[0], false)
				return at, !pol
			default:
				return constBool(true), true
			}
		}
	}
	if b.Op == "compare" {
		if v, ok := a.intVal(); ok && v.IsInt64() {
			at, pol := ltCompare(b, linAdd(a, constInt(1), 1, nil))
			return at, !pol
		}
	}
	return nil, false
}

// splitLin rewrites d (meaning d vs 0) as (positive part, negative part).
func splitLin(d *Term, ta, tb types.Type) (*Term, *Term) {
	l := toLin(d)
	pos := linForm{bigZero(), map[*Term]*bigInt{}}
	neg := linForm{bigZero(), map[*Term]*bigInt{}}
	for t, c := range l.co {
		if c.Sign() > 0 {
			pos.co[t] = c
		} else if c.Sign() < 0 {
			neg.co[t] = bigNeg(c)
		}
	}
	if l.c.Sign() > 0 {
		pos.c = l.c
	} else if l.c.Sign() < 0 {
		neg.c = bigNeg(l.c)
	}
	return pos.term(ta), neg.term(tb)
}

func mkLtRaw(a, b *Term, integer bool) (*Term, bool) {
	return mk("lt", "", nil, a, b), true
}

// mkEq builds the canonical literal for a == b.
func mkEq(a, b *Term) (*Term, bool) {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return constBool(true), true
	}
	if a.isConst() && b.isConst() {
		if a.Op == b.Op {
			return constBool(false), true
		}
	}
	// address comparison through strings or bytes
	if a.Op == "addr" && b.Op == "addr" {
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.Op == "addr" && b.Op != "addr" {
		if s := mkAddrStr(b); s.Op != "addrstr" || true {
			return mkEq(a.Args[0], s)
		}
	}
	if b.Op == "addr" && a.Op != "addr" {
		return mkEq(b.Args[0], mkAddrStr(a))
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" {
		switch nilness(a) {
		case 1:
			return constBool(true), true
		case -1:
			return constBool(false), true
		}
		return mk("isnil", "", nil, a), true
	}
	for i, x := range []*Term{a, b} {
		if x.Op != "compare" {
			continue
		}
		if v, ok := []*Term{b, a}[i].intVal(); ok && v.IsInt64() {
			switch v.Int64() {
			case -1:
				return mkLt(x.Args[0], x.Args[1], false)
			case 0:
				return mkEq(x.Args[0], x.Args[1])
			case 1:
				return mkLt(x.Args[1], x.Args[0], false)
			}
			return constBool(false), true
		}
	}
	for i, x := range []*Term{a, b} {
		if y := []*Term{b, a}[i]; x.Op == "len" && y.is("int", "0") && canonicalCoins(x.Args[0]) {
			return mk("call", sdkCoins+".IsZero", types.Typ[types.Bool], x.Args[0]), true
		}
	}
	if b.Op == "bool" {
		return a, b.Name == "true"
	}
	if a.Op == "bool" {
		return b, a.Name == "true"
	}
	// len(s)==0 / s=="" unify for strings
	if (a.Op == "str" && a.Name == "") || (b.Op == "str" && b.Name == "") {
		x := a
		if a.Op == "str" {
			x = b
		}
		return mk("eq", "", nil, sort2(mk("len", "", nil, x), constInt(0))...), true
	}
	if a.Op == "lin" || b.Op == "lin" {
		d := linAdd(a, b, -1, nil)
		if v, ok := d.intVal(); ok {
			return constBool(v.Sign() == 0), true
		}
		a, b = splitLin(d, a.Typ, b.Typ)
	}
	return mk("eq", "", nil, sort2(a, b)...), true
}

// canonicalCoins: coins made by the coin operations, which drop zero amounts
// and refuse negative ones.
func canonicalCoins(t *Term) bool {
	return t.Op == "call" && (t.Name == sdkCoins+".Sub" || t.Name == sdkCoins+".Add")
}

func sort2(a, b *Term) []*Term {
	if a.ID > b.ID {
		return []*Term{b, a}
	}
	return []*Term{a, b}
}

func stripConv(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// nilness: 1 = nil, -1 = certainly non-nil, 0 = unknown.
func nilness(t *Term) int {
	switch t.Op {
	case "nil":
		return 1
	case "alloc", "faddr", "iaddr", "closure", "func", "mkmap", "mkslice", "global", "nonnil", "list", "error", "cat", "struct", "zero", "mkchan":
		if t.Op == "list" && len(t.Args) == 0 {
			return -1
		}
		return -1
	case "iface":
		// interface holding a typed value is non-nil
		return -1
	case "wrap":
		return nilness(t.Args[0])
	case "gval":
		// sentinel errors registered by their package
		if t.Typ != nil && typeName(t.Typ) == "*cosmossdk.io/errors.Error" {
			return -1
		}
	case "call":
		if t.Name == "cosmossdk.io/errors.Register" || t.Name == "cosmossdk.io/errors.RegisterWithGRPCCode" {
			return -1
		}
	case "bech32err":
		if t.Args[0].Op == "str" && strings.TrimSpace(t.Args[0].Name) == "" {
			return -1
		}
	case "int", "str", "bool", "lin":
		return -1
	case "append":
		return -1
	case "param":
		if strings.HasPrefix(t.Name, "*") { // entry pointer parameter, assumed non-nil
			return -1
		}
	case "enc", "u64be", "addr":
		return -1
	}
	return 0
}

// litOf turns a boolean term into (atom, polarity).
func litOf(t *Term) (*Term, bool) {
	pol := true
	for t.Op == "not" {
		t = t.Args[0]
		pol = !pol
	}
	return t, pol
}

// eval decides an atom under the facts. known=false when undecided.
func (f *Facts) eval(a *Term) (val, known bool) {
	if a.Op == "bool" {
		return a.Name == "true", true
	}
	if a.Op == "not" {
		v, k := f.eval(a.Args[0])
		return !v, k
	}
	if v, ok := f.m[a]; ok {
		return v, true
	}
	switch a.Op {
	case "eq":
		x, y := a.Args[0], a.Args[1]
		if distinctDenoms(x, y) {
			return false, true
		}
		if v, ok := f.otherSide(x, y); ok {
			return v, true
		}
		if f.extremeIs(x, y) || f.extremeIs(y, x) {
			return true, true
		}
		if v, ok := f.m[mk("lt", "", nil, x, y)]; ok && v {
			return false, true
		}
		if v, ok := f.m[mk("lt", "", nil, y, x)]; ok && v {
			return false, true
		}
		// x == c1 known, asking x == c2
		for k, v := range f.m {
			if k.Op == "eq" && v {
				p, q := k.Args[0], k.Args[1]
				if q == x || q == y {
					p, q = q, p
				}
				if p == x && q.isConst() && y.isConst() && q != y {
					return false, true
				}
				if p == y && q.isConst() && x.isConst() && q != x {
					return false, true
				}
			}
			// one step of transitivity: x == z known, z vs y known
			if k.Op == "eq" && v && !a.Args[0].isConst() && !a.Args[1].isConst() {
				for i := 0; i < 2; i++ {
					p, q := k.Args[i], k.Args[1-i]
					var z, o *Term
					if p == x {
						z, o = q, y
					} else if p == y {
						z, o = q, x
					} else {
						continue
					}
					if distinctDenoms(z, o) {
						return false, true
					}
					if e, ok := f.m[mk("eq", "", nil, sort2(z, o)...)]; ok {
						return e, true
					}
				}
			}
		}
		l1, ok1 := f.order(x, y)
		l2, ok2 := f.order(y, x)
		if ok1 && ok2 && !l1 && !l2 {
			return true, true
		}
		// integer bounds with constants
		if c, ok := y.intVal(); ok {
			_ = c
			if lo, hi := f.bounds(x); lo != nil && hi != nil {
				cc, _ := y.intVal()
				if cc.Cmp(lo) < 0 || cc.Cmp(hi) > 0 {
					return false, true
				}
			}
		}
		if _, ok := x.intVal(); ok {
			lo, hi := f.bounds(y)
			cc, _ := x.intVal()
			if (lo != nil && cc.Cmp(lo) < 0) || (hi != nil && cc.Cmp(hi) > 0) {
				return false, true
			}
		} else if cc, ok := y.intVal(); ok {
			lo, hi := f.bounds(x)
			if (lo != nil && cc.Cmp(lo) < 0) || (hi != nil && cc.Cmp(hi) > 0) {
				return false, true
			}
		}
	case "lt":
		x, y := a.Args[0], a.Args[1]
		if v, ok := f.extremeLt(x, y); ok {
			return v, true
		}
		if notAbove(y, x) {
			return false, true
		}
		if v, ok := f.m[mk("lt", "", nil, y, x)]; ok && v {
			return false, true
		}
		if v, ok := f.m[mk("eq", "", nil, sort2(x, y)...)]; ok && v {
			return false, true
		}
		// ¬(y<x) ∧ x≠y ⇒ x<y
		if v, ok := f.order(y, x); ok && !v {
			if e, ok := f.m[mk("eq", "", nil, sort2(x, y)...)]; ok && !e {
				return true, true
			}
		}
		if cc, ok := y.intVal(); ok {
			lo, hi := f.bounds(x)
			if hi != nil && hi.Cmp(cc) < 0 {
				return true, true
			}
			if lo != nil && lo.Cmp(cc) >= 0 {
				return false, true
			}
		}
		if cc, ok := x.intVal(); ok {
			lo, hi := f.bounds(y)
			if lo != nil && lo.Cmp(cc) > 0 {
				return true, true
			}
			if hi != nil && hi.Cmp(cc) <= 0 {
				return false, true
			}
		}
	case "typeis":
		for k, v := range f.m {
			if k.Op == "typeis" && v && k.Args[0] == a.Args[0] && k.Name != a.Name {
				return false, true
			}
		}
	case "isnil":
		if x := a.Args[0]; x.Op == "wrap" {
			at, pol := mkEq(x.Args[0], nilTerm)
			v, k := f.eval(at)
			if k {
				return v == pol, true
			}
		}
	}
	return false, false
}

const (
	nDownTick = pAmm + ".PriceToDownTick"
	nUpTick   = pAmm + ".PriceToUpTick"
)

// otherSide: an order in the book is a buy (1) or a sell (2), so that not being
// the one is being the other (directions: rules P02 and P17).
func (f *Facts) otherSide(x, y *Term) (val, known bool) {
	if x.isConst() {
		x, y = y, x
	}
	if x.Op != "call" || x.Name != pAmm+".Order.GetDirection" || y.Op != "int" {
		return false, false
	}
	var o *Term
	switch y.Name {
	case "1":
		o = constInt(2)
	case "2":
		o = constInt(1)
	default:
		return false, true
	}
	if v, ok := f.m[mk("eq", "", nil, sort2(x, o)...)]; ok {
		return !v, true
	}
	return false, false
}

// order is what is known of x < y.
func (f *Facts) order(x, y *Term) (val, known bool) {
	if v, ok := f.m[mk("lt", "", nil, x, y)]; ok {
		return v, true
	}
	if notAbove(y, x) {
		return false, true
	}
	return false, false
}

// notAbove: y is never above x, by what y is computed as (rounding a price to
// its lower or upper tick: rule P41 TICK-ROUND).
func notAbove(y, x *Term) bool {
	if y.is("int", "0") && x.Op == "call" && (x.Name == nMA || x.Name == nTMA) {
		return true // what can be matched is not negative (rule P16 MATCHABLE)
	}
	if y.Op == "call" && y.Name == nDownTick && len(y.Args) > 0 && y.Args[0] == x {
		return true
	}
	return x.Op == "call" && x.Name == nUpTick && len(x.Args) > 0 && x.Args[0] == y
}

// extremeIs: m is the minimum or maximum of values of which y is one, and y is
// known to be the smallest or largest.
func (f *Facts) extremeIs(m, y *Term) bool {
	if m.Op != "min" && m.Op != "max" || len(m.Args) == 0 {
		return false
	}
	in := false
	for _, a := range m.Args {
		if a == y {
			in = true
			continue
		}
		l, _ := mkLt(a, y, false) // max: y is not below a
		if m.Op == "max" {
			l, _ = mkLt(y, a, false)
		}
		if l.Op != "lt" {
			return false
		}
		if v, known := f.order(l.Args[0], l.Args[1]); !known || v {
			if v, known = f.order(l.Args[1], l.Args[0]); !known || !v {
				return false
			}
		}
	}
	return in
}

// extremeLt: x < y where one is a minimum or maximum.
func (f *Facts) extremeLt(x, y *Term) (val, known bool) {
	if x.Op == "min" || x.Op == "max" {
		n := 0
		for _, a := range x.Args {
			v, ok := f.order(a, y)
			if ok && v == (x.Op == "min") {
				return v, true
			}
			if ok {
				n++
			}
		}
		if n == len(x.Args) && n > 0 {
			return x.Op == "max", true
		}
	}
	if y.Op == "min" || y.Op == "max" {
		n := 0
		for _, a := range y.Args {
			v, ok := f.order(x, a)
			if ok && v == (y.Op == "max") {
				return v, true
			}
			if ok {
				n++
			}
		}
		if n == len(y.Args) && n > 0 {
			return y.Op == "min", true
		}
	}
	// an argument of an extreme compared before
	for k, v := range f.m {
		if k.Op != "lt" {
			continue
		}
		m, o := k.Args[0], k.Args[1]
		switch {
		case o == y && isArgOf(m, x) && (m.Op == "max" && v || m.Op == "min" && !v):
			return v, true
		case m == x && isArgOf(o, y) && (o.Op == "min" && v || o.Op == "max" && !v):
			return v, true
		}
	}
	return false, false
}

func isArgOf(m, x *Term) bool {
	if m.Op != "min" && m.Op != "max" {
		return false
	}
	for _, a := range m.Args {
		if a == x {
			return true
		}
	}
	return false
}

// distinctDenoms: the base and quote denoms of a stored pair differ (checked at
// every pair creation by rule PAIR-DENOMS; genesis files are assumed valid).
func distinctDenoms(x, y *Term) bool {
	return x.Op == "field" && y.Op == "field" && x.Args[0] == y.Args[0] &&
		(x.Name == "BaseCoinDenom" && y.Name == "QuoteCoinDenom" || x.Name == "QuoteCoinDenom" && y.Name == "BaseCoinDenom")
}

// bounds returns integer bounds for t implied by constant comparisons.
func (f *Facts) bounds(t *Term) (lo, hi *bigInt) {
	if nonNeg(t) {
		lo = bigZero()
	}
	up := func(c *bigInt) {
		if hi == nil || c.Cmp(hi) < 0 {
			hi = c
		}
	}
	low := func(c *bigInt) {
		if lo == nil || c.Cmp(lo) > 0 {
			lo = c
		}
	}
	for k, v := range f.m {
		switch k.Op {
		case "lt":
			if k.Args[0] == t {
				if c, ok := k.Args[1].intVal(); ok {
					if v {
						up(c)
					} else {
						low(c)
					}
				}
			}
			if k.Args[1] == t {
				if c, ok := k.Args[0].intVal(); ok {
					if v {
						low(c)
					} else {
						up(c)
					}
				}
			}
		case "eq":
			if v {
				if k.Args[0] == t {
					if c, ok := k.Args[1].intVal(); ok {
						up(c)
						low(c)
					}
				} else if k.Args[1] == t {
					if c, ok := k.Args[0].intVal(); ok {
						up(c)
						low(c)
					}
				}
			}
		}
	}
	return
}

// assume adds literal; returns nil when contradictory.
func (f *Facts) assume(a *Term, v bool) *Facts {
	for a.Op == "not" {
		a = a.Args[0]
		v = !v
	}
	if val, known := f.eval(a); known {
		if val != v {
			return nil
		}
		if a.Op == "bool" {
			return f
		}
		if _, ok := f.m[a]; ok {
			return f
		}
	}
	return f.with(a, v)
}

// holds: literal is implied.
func (f *Facts) holds(a *Term, v bool) bool {
	val, known := f.eval(a)
	return known && val == v
}
