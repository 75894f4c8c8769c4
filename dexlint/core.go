package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Fail is one violated or undecided obligation.
type Fail struct {
	Rule, Construct, Pos, Msg string
}

func (f Fail) key() string { return f.Rule + "|" + f.Construct }

// R collects the obligations of one property.
type R struct {
	w      *World
	ID     string
	Count  map[string]int
	Bad    map[string]int
	Fails  []Fail
	Sample []string
	seen   map[string]bool
	infos  []string
}

func newR(w *World, id string) *R {
	return &R{w: w, ID: id, Count: map[string]int{}, Bad: map[string]int{}, seen: map[string]bool{}}
}

func (r *R) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := r.w.P.Prog.Fset.Position(p)
	return strings.TrimPrefix(ps.Filename, r.w.P.Root+"/") + fmt.Sprintf(":%d", ps.Line)
}

// ob records one obligation; construct identifies the place independent of
// line numbers.
func (r *R) ob(rule, construct string, p token.Pos, ok bool, format string, args ...any) bool {
	r.Count[rule]++
	if ok {
		if r.Count[rule] <= 2 {
			r.Sample = append(r.Sample, fmt.Sprintf("%s: %s at %s: holds", rule, construct, r.pos(p)))
		}
		return true
	}
	r.Bad[rule]++
	f := Fail{rule, construct, r.pos(p), fmt.Sprintf(format, args...)}
	if r.seen[f.key()+f.Pos] {
		return false
	}
	r.seen[f.key()+f.Pos] = true
	r.Fails = append(r.Fails, f)
	return false
}

// merge adds the obligations of another collection.
func (r *R) merge(o *R) {
	for k, n := range o.Count {
		r.Count[k] += n
	}
	for k, n := range o.Bad {
		r.Bad[k] += n
	}
	for _, f := range o.Fails {
		if !r.seen[f.key()+f.Pos] {
			r.seen[f.key()+f.Pos] = true
			r.Fails = append(r.Fails, f)
		}
	}
	if len(r.Sample) < 60 {
		r.Sample = append(r.Sample, o.Sample...)
	}
}

// floor fails the property when a rule matched fewer instances than confirmed by hand.
func (r *R) floor(rule string, n int) {
	if r.Count[rule] < n {
		r.Fails = append(r.Fails, Fail{rule, "instance-count", "", fmt.Sprintf("rule matched %d instances, at least %d were confirmed by hand: the construct it anchors to has disappeared", r.Count[rule], n)})
		r.Bad[rule]++
	}
}

// ---- literals -----------------------------------------------------------------

type Lit struct {
	a *Term
	p bool
}

func eqL(a, b *Term) Lit { x, p := mkEq(a, b); return Lit{x, p} }
func neL(a, b *Term) Lit { x, p := mkEq(a, b); return Lit{x, !p} }
func ltL(a, b *Term, integer bool) Lit {
	x, p := mkLt(a, b, integer)
	return Lit{x, p}
}
func geL(a, b *Term, integer bool) Lit { l := ltL(a, b, integer); return Lit{l.a, !l.p} }
func (l Lit) not() Lit                 { return Lit{l.a, !l.p} }
func (l Lit) String() string {
	if l.p {
		return l.a.String()
	}
	return "¬" + l.a.String()
}

func (f *Facts) has(l Lit) bool    { return l.a != nil && f.holds(l.a, l.p) }
func (f *Facts) contra(l Lit) bool { return l.a != nil && f.holds(l.a, !l.p) }

// same: a and b are equal under the facts.
func (f *Facts) same(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	return f.has(eqL(a, b))
}

// eqVia: a and b are equal, directly or through a third value.
func (f *Facts) eqVia(a, b *Term) bool {
	if f.same(a, b) {
		return true
	}
	for x, v := range f.m {
		if v && x.Op == "eq" && len(x.Args) == 2 {
			for i, t := range x.Args {
				if t == a && f.same(x.Args[1-i], b) || t == b && f.same(x.Args[1-i], a) {
					return true
				}
			}
		}
	}
	return false
}

// equals are the terms equal to t, with t.
func (f *Facts) equals(t *Term) []*Term {
	r := []*Term{t}
	for x, v := range f.m {
		if v && x.Op == "eq" && len(x.Args) == 2 {
			if x.Args[0] == t {
				r = append(r, x.Args[1])
			} else if x.Args[1] == t {
				r = append(r, x.Args[0])
			}
		}
	}
	return r
}

// sameDeep compares structurally, using the facts on leaves.
func (f *Facts) sameDeep(a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	if f.same(a, b) {
		return true
	}
	if a.Op != b.Op || a.Name != b.Name || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		// a struct literal against an opaque value: compare field-wise
		if a.Op == "struct" && a.Typ != nil || b.Op == "struct" && b.Typ != nil {
			t := a.Typ
			if a.Op != "struct" {
				t = b.Typ
			}
			st := structOf(t)
			if st == nil {
				return false
			}
			for i := 0; i < st.NumFields(); i++ {
				x, y := mkField(a, t, i), mkField(b, t, i)
				if x.Op == "field" && x.Args[0] == a && y.Op == "field" && y.Args[0] == b {
					return false
				}
				if !f.sameDeep(x, y) {
					return false
				}
			}
			return true
		}
		return false
	}
	if a.Op == "coins" { // sets
		used := make([]bool, len(b.Args))
	outer:
		for _, x := range a.Args {
			for j, y := range b.Args {
				if !used[j] && f.sameDeep(x, y) {
					used[j] = true
					continue outer
				}
			}
			return false
		}
		return true
	}
	for i := range a.Args {
		if !f.sameDeep(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// ---- term builders --------------------------------------------------------------

func (w *World) typ(name string) types.Type { return w.P.namedType(pTypes, name) }

func (w *World) key(rec string, ids ...*Term) *Term {
	args := []*Term{mk("byte", "", nil, constInt(w.Pfx[rec]))}
	for _, x := range ids {
		args = append(args, mk("u64be", "", nil, x))
	}
	return mk("cat", "", nil, args...)
}

// stored is the record of the given type as of the start of the entry.
func (w *World) stored(rec string, ids ...*Term) *Term {
	return mk("dec", pTypes+"."+rec, w.typ(rec), w.kv(w.key(rec, ids...)))
}
func (w *World) kv(key *Term) *Term {
	return mk("kvget", "", types.NewSlice(types.Typ[types.Byte]), key)
}

func param(name string) *Term {
	return mk("pparam", "", nil, mk("bytesof", "", nil, constStr(name)))
}

func addrOf(s *Term) *Term { return mkAddr(s) }

func callT(name string, args ...*Term) *Term { return mk("call", name, nil, args...) }

func decMul(a, b *Term) *Term { return callT(mathDec+".Mul", sort2(a, b)...) }

func coinsOf(cs ...*Term) *Term {
	as := append([]*Term(nil), cs...)
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	return mk("coins", "", nil, as...)
}

func (w *World) coin(denom, amt *Term) *Term {
	t := w.typ("Order").Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == "OfferCoin" {
			return mkStruct(t.Field(i).Type(), []*Term{denom, amt})
		}
	}
	return nil
}

// ---- bank effects ---------------------------------------------------------------

type Transfer struct {
	From, To, Coins *Term
	Ev              *Event
	Queued          bool
}

func modAddr(name *Term) *Term { return callT(pTypes+".AccountKeeper.GetModuleAddress", name) }

// transfers extracts the coin movements of a path in a normal form.
func transfers(evs []*Event) []Transfer {
	var ts []Transfer
	for _, e := range evs {
		a := e.Args
		switch e.Kind {
		case "queue":
			ts = append(ts, Transfer{a[1], a[2], a[3], e, true})
		case "bank":
			switch e.Name {
			case "SendCoins":
				ts = append(ts, Transfer{a[0], a[1], a[2], e, false})
			case "SendCoinsFromModuleToAccount":
				ts = append(ts, Transfer{modAddr(a[0]), a[1], a[2], e, false})
			case "SendCoinsFromAccountToModule":
				ts = append(ts, Transfer{a[0], modAddr(a[1]), a[2], e, false})
			case "SendCoinsFromModuleToModule":
				ts = append(ts, Transfer{modAddr(a[0]), modAddr(a[1]), a[2], e, false})
			case "InputOutputCoins":
				in, out := a[0], a[1]
				if in.Op == "call" && strings.HasSuffix(in.Name, ".NewInput") && out.Op == "list" && len(out.Args) == 1 && out.Args[0].Op == "call" && strings.HasSuffix(out.Args[0].Name, ".NewOutput") {
					ts = append(ts, Transfer{in.Args[0], out.Args[0].Args[0], in.Args[1], e, false})
				} else {
					ts = append(ts, Transfer{in, out, nil, e, false})
				}
			}
		}
	}
	return ts
}

func supplyOps(evs []*Event, name string) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.Kind == "bank" && e.Name == name {
			r = append(r, e)
		}
	}
	return r
}

func describe(ts []Transfer) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, fmt.Sprintf("%v -> %v: %v", t.From, t.To, t.Coins))
	}
	if len(ss) == 0 {
		return "none"
	}
	return strings.Join(ss, "; ")
}

// recWrite is a store write of a typed record.
type recWrite struct {
	Ev        *Event
	Val, Base *Term
}

func writes(evs []*Event, typ string) []recWrite {
	var r []recWrite
	for _, e := range evs {
		if v := recVal(e, typ); v != nil {
			r = append(r, recWrite{e, v, baseOf(v)})
		}
	}
	return r
}

// allEvents includes the events of nested loops.
func allEvents(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		r = append(r, e)
		if e.Kind == "loop" {
			for _, b := range e.Bodies {
				r = append(r, allEvents(b.Events)...)
			}
		}
	}
	return r
}

func (w *World) constOf(name string) *Term {
	for _, pkg := range []string{pTypes, pAmm} {
		sp := w.P.SSA[pkg]
		if sp == nil {
			continue
		}
		if c := sp.Const(name); c != nil {
			return constTerm(c.Value)
		}
	}
	return nil
}

// globalT is the value of a package-level variable as it appears in the analysis.
func (w *World) globalT(pkg, name string) *Term {
	g := mk("global", pkg+"."+name, nil)
	if v, ok := w.P.globals[g]; ok {
		return v
	}
	return mk("gval", pkg+"."+name, nil)
}
