package main

import "sort"

// Accounting over event trees: loops contribute what they add to a
// loop-carried value.

// scan is a loop that goes through a list from its first element on.
type scan struct {
	ev     *Event
	list   *Term
	idx    *Term
	el     *Term
	bodies []*Unit
}

// scanOf recognises a loop over a list: an index that starts at the first
// element and moves by one, checked against the length in every iteration.
func scanOf(u *Unit, ev *Event, list *Term) *scan {
	if ev.Kind != "loop" || len(ev.Bodies) == 0 {
		return nil
	}
	n := mkLen(list)
	for _, m := range sortedMus(ev) {
		mi := ev.Mus[m]
		if mi.Init == nil || len(mi.Backs) == 0 {
			continue
		}
		ok := true
		for _, b := range mi.Backs {
			ok = ok && b.Val != nil && linAdd(b.Val, m, -1, nil) == ci(1)
		}
		if !ok {
			continue
		}
		if _, lit := mi.Init.intVal(); !lit {
			continue
		}
		idx := linAdd(m, mi.Init, -1, m.Typ)
		for _, b := range ev.Bodies {
			l := ltL(idx, n, true)
			ok = ok && b.Facts.has(l) && !ev.Facts.has(l)
		}
		if !ok {
			continue
		}
		s := &scan{ev: ev, list: list, idx: idx, el: mkElem(list, idx)}
		for _, b := range ev.Bodies {
			s.bodies = append(s.bodies, &Unit{Entry: u.Entry, Parent: u, Loop: ev, Events: b.Events, Facts: b.Facts})
		}
		return s
	}
	return nil
}

func sortedMus(ev *Event) []*Term {
	var ms []*Term
	for m := range ev.Mus {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	return ms
}

// done: the scan reached the end of the list.
func (s *scan) done(f *Facts) bool { return f.has(geL(s.idx, mkLen(s.list), true)) }

// scans are the loops over a list among the events.
func scans(u *Unit, evs []*Event, list *Term) []*scan {
	var r []*scan
	for _, ev := range evs {
		if s := scanOf(u, ev, list); s != nil {
			r = append(r, s)
		}
	}
	return r
}

// sumOver: t is the sum of a quantity over the whole list, added up by a
// complete loop of this outcome.
func sumOver(u *Unit, t, list *Term, of func(f *Facts, el *Term) *Term) bool {
	for _, s := range scans(u, u.Events, list) {
		mi := s.ev.Mus[t]
		if mi == nil || mi.Init != ci(0) || !s.done(u.Facts) {
			continue
		}
		ok := true
		for i, b := range mi.Backs {
			f := s.bodies[i].Facts
			want := of(f, s.el)
			ok = ok && b.Val != nil && want != nil && linSame(f, linAdd(b.Val, t, -1, nil), want)
		}
		if ok {
			return true
		}
	}
	return false
}

// linSame: two integer values are equal under the facts.
func linSame(f *Facts, a, b *Term) bool {
	d := linAdd(a, b, -1, nil)
	if d == ci(0) {
		return true
	}
	var eqs []*Term
	for x, v := range f.m {
		if x.Op == "eq" && v && len(x.Args) == 2 {
			eqs = append(eqs, linAdd(x.Args[0], x.Args[1], -1, nil))
		}
	}
	sort.Slice(eqs, func(i, j int) bool { return eqs[i].ID < eqs[j].ID })
	for _, e := range eqs {
		if d == e || linNeg(d, nil) == e {
			return true
		}
	}
	for _, e := range eqs { // two equalities together
		for _, s := range []int64{1, -1} {
			d2 := linAdd(d, e, s, nil)
			for _, e2 := range eqs {
				if d2 == e2 || linNeg(d2, nil) == e2 {
					return true
				}
			}
		}
	}
	return false
}

// ledger adds up what events contribute. A loop contributes the change of a
// loop-carried value that moves with its contributions in every iteration.
// The result lists alternative expressions; none means unknown.
func ledger(f *Facts, evs []*Event, contrib func(ev *Event) *Term) []*Term {
	sums := []*Term{ci(0)}
	for _, ev := range evs {
		var alts []*Term
		if ev.Kind == "loop" {
			alts = loopSums(ev, contrib)
		} else if c := contrib(ev); c != nil {
			alts = []*Term{c}
		} else {
			continue
		}
		var next []*Term
		for _, s := range sums {
			for _, a := range alts {
				next = append(next, linAdd(s, a, 1, nil))
			}
		}
		sums = next
	}
	return sums
}

func loopSums(ev *Event, contrib func(ev *Event) *Term) []*Term {
	bodies := make([][]*Term, len(ev.Bodies))
	none := true
	for i, b := range ev.Bodies {
		bodies[i] = ledger(b.Facts, b.Events, contrib)
		if len(bodies[i]) == 0 {
			return nil
		}
		none = none && len(bodies[i]) == 1 && bodies[i][0] == ci(0)
	}
	if none {
		return []*Term{ci(0)}
	}
	var alts []*Term
	for _, m := range sortedMus(ev) {
		mi := ev.Mus[m]
		if mi.Init == nil || len(mi.Backs) != len(ev.Bodies) {
			continue
		}
		for _, sg := range []int64{1, -1} {
			ok := true
			for i, b := range mi.Backs {
				hit := false
				for _, s := range bodies[i] {
					if b.Val == nil {
						continue
					}
					step := linAdd(b.Val, m, -1, nil)
					if sg < 0 {
						step = linNeg(step, nil)
					}
					hit = hit || linSame(ev.Bodies[i].Facts, step, s)
				}
				ok = ok && hit
			}
			if ok {
				d := linAdd(m, mi.Init, -1, nil)
				if sg < 0 {
					d = linNeg(d, nil)
				}
				alts = append(alts, d)
			}
		}
	}
	return alts
}

// sumIs: what the events contribute is t.
func sumIs(f *Facts, evs []*Event, contrib func(ev *Event) *Term, t *Term) bool {
	for _, s := range ledger(f, evs, contrib) {
		if linSame(f, s, t) {
			return true
		}
	}
	return false
}

// segment is a piece of a list: one element, or a slice of another list.
type segment struct {
	el           *Term
	list, lo, hi *Term // hi nil: up to the end
}

// segments takes a concatenation apart.
func segments(t *Term) []segment {
	switch t.Op {
	case "nil", "zero":
		return nil
	case "list":
		var r []segment
		for _, a := range t.Args {
			r = append(r, segment{el: a})
		}
		return r
	case "append":
		r := segments(t.Args[0])
		for _, a := range t.Args[1:] {
			if t.Name == "all" {
				r = append(r, segments(a)...)
			} else {
				r = append(r, segment{el: a})
			}
		}
		return r
	case "copyof":
		return segments(t.Args[0])
	case "mkslice":
		if mkLen(t) == ci(0) {
			return nil
		}
	case "slice":
		sg := segment{list: t.Args[0], lo: ci(0)}
		if t.Args[1].Op != "none" {
			sg.lo = t.Args[1]
		}
		if t.Args[2].Op != "none" {
			sg.hi = t.Args[2]
		}
		return []segment{sg}
	}
	return []segment{{list: t, lo: ci(0)}}
}

// inserted: after is before with one new element at position i (nil: at the end).
func inserted(f *Facts, before, after *Term) (el, i *Term, ok bool) {
	sg := segments(after)
	n := mkLen(before)
	pos := ci(0)
	for k, s := range sg {
		if s.el != nil {
			if el != nil {
				return nil, nil, false
			}
			el, i = s.el, pos
			continue
		}
		if s.list != before || !linSame(f, s.lo, pos) {
			return nil, nil, false
		}
		if s.hi != nil {
			pos = s.hi
		} else {
			pos = n
		}
		_ = k
	}
	if el == nil || !linSame(f, pos, n) {
		return nil, nil, false
	}
	return el, i, true
}

// leq: x is at most y.
func leq(f *Facts, x, y *Term) bool {
	if x == nil || y == nil {
		return false
	}
	if linSame(f, x, y) || f.has(geL(y, x, false)) {
		return true
	}
	if x.Op == "min" {
		for _, a := range x.Args {
			if leq(f, a, y) {
				return true
			}
		}
	}
	return false
}

func minLeaves(t *Term) []*Term {
	if t.Op != "min" {
		return []*Term{t}
	}
	var r []*Term
	for _, a := range t.Args {
		r = append(r, minLeaves(a)...)
	}
	return r
}

// notBelow are the values known not to be below x.
func notBelow(f *Facts, x *Term) []*Term {
	var r []*Term
	for a, v := range f.m {
		if a.Op != "lt" {
			continue
		}
		if v && a.Args[0] == x {
			r = append(r, a.Args[1])
		} else if !v && a.Args[1] == x {
			r = append(r, a.Args[0])
		}
	}
	return r
}
