package main

import "go/token"

// prefixOf reports whether a store key (or iteration prefix) starts with the
// record prefix rec and has n further components.
func (w *World) prefixOf(k *Term, rec string, n int) bool {
	if k == nil || k.Op != "cat" || len(k.Args) != n+1 {
		return false
	}
	p := constPrefix(k)
	return len(p) > 0 && p[0] == w.Pfx[rec] && k.Args[0].Op == "byte"
}

func (w *World) pfxIs(rec string, n int) func(*Term) bool {
	return func(k *Term) bool { return w.prefixOf(k, rec, n) }
}

// newIters lists the iterators known to be positioned on an element by this
// unit itself (not by an enclosing loop).
func newIters(u *Unit) []*Term {
	var r []*Term
	for a, v := range u.Facts.m {
		if a.Op == "itervalid" && v {
			if u.Loop != nil {
				if x, ok := u.Loop.Facts.m[a]; ok && x {
					continue
				}
			}
			r = append(r, a.Args[0])
		}
	}
	return r
}

// bodiesOver lists the loop-body units of e that process one element of a
// store iteration whose prefix satisfies pred.
func (w *World) bodiesOver(e *Entry, pred func(*Term) bool) []*Unit {
	var r []*Unit
	for _, u := range w.Units(e) {
		if u.Loop == nil {
			continue
		}
		for _, it := range newIters(u) {
			if pred(it.Args[0]) {
				r = append(r, u)
			}
		}
	}
	return r
}

// earlyExits lists units of e on which such an iteration is abandoned before
// its end.
func (w *World) earlyExits(e *Entry, pred func(*Term) bool) []*Unit {
	var r []*Unit
	for _, u := range w.Units(e) {
		has := false
		for _, ev := range u.Events {
			if ev.Kind == "kviter" && pred(ev.Args[0]) {
				has = true
			}
		}
		if !has {
			continue
		}
		for _, it := range newIters(u) {
			if pred(it.Args[0]) {
				r = append(r, u)
			}
		}
	}
	return r
}

// elemOf is the record a unit's own iteration is positioned on.
func (w *World) elemOf(u *Unit, rec string) *Term {
	for _, it := range newIters(u) {
		v := mk("iterval", "", nil, it)
		for _, ev := range u.Events {
			_ = ev
		}
		d := mk("dec", pTypes+"."+rec, w.typ(rec), v)
		return d
	}
	return nil
}

// blockTime finds the block-time term used in the facts of a unit.
func hasExpired(f *Facts, ord *Term) (expired, live bool) {
	exp := F(ord, "ExpireAt")
	for a := range f.m {
		if a.Op != "lt" && a.Op != "eq" {
			continue
		}
		for i, t := range a.Args {
			if !isBlockTime(t) || a.Args[1-i] != exp {
				continue
			}
			l := ltL(t, exp, false)
			live = live || f.has(l)
			expired = expired || f.contra(l)
		}
	}
	return
}

// tooSmall: +1 certainly too small, -1 certainly not, 0 unknown.
func (w *World) tooSmall(f *Facts, ord *Term) int {
	minAmt := w.globalT(pAmm, "MinCoinAmount")
	val := callT(mathDec+".MulInt", F(ord, "Price"), F(ord, "OpenAmount"))
	a := ltL(F(ord, "OpenAmount"), minAmt, false)
	b := ltL(val, mkToDec(minAmt, nil), false)
	if f.has(a) || f.has(b) {
		return 1
	}
	if f.contra(a) && f.contra(b) {
		return -1
	}
	return 0
}

func statusIn(f *Facts, st *Term, vs ...int) bool {
	// certainly one of vs: equal to one, or all the others excluded
	for _, v := range vs {
		if f.has(eqL(st, ci(v))) {
			return true
		}
	}
	return false
}

// statusNone: certainly none of vs.
func statusNone(f *Facts, st *Term, vs ...int) bool {
	for _, v := range vs {
		if !f.contra(eqL(st, ci(v))) {
			return false
		}
	}
	return true
}

// opaqueCalls lists opaque call events with the given method-name suffix.
func opaqueCalls(evs []*Event, suffix string) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.Kind == "call" && hasSuffix(e.Name, suffix) {
			r = append(r, e)
		}
	}
	return r
}

func hasSuffix(s, x string) bool { return len(s) >= len(x) && s[len(s)-len(x):] == x }

func kvdels(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.Kind == "kvdel" {
			r = append(r, e)
		}
	}
	return r
}

func kvsets(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.Kind == "kvset" {
			r = append(r, e)
		}
	}
	return r
}

type tokenPos = token.Pos
