package main

import (
	"strings"
)

// P45: the amount matched at a single price is as much as both sides can match:
// ticks are left out from the worst on, and only those that are not needed.

// dropping is how a side loses its worst ticks: a total and an index that move
// together through a loop.
type dropping struct {
	loop       *Event
	total, idx *Term
	list       *Term // ticks within the limit
	scan       *scan
}

// cur is the last tick still taking part.
func (d *dropping) cur() *Term { return mkElem(d.list, d.idx) }

func (d *dropping) step(m *Term, i int) *Term {
	mi := d.loop.Mus[m]
	if mi == nil || i >= len(mi.Backs) || mi.Backs[i].Val == nil {
		return ci(0)
	}
	return linAdd(mi.Backs[i].Val, m, -1, nil)
}

// droppingOf finds how a side's ticks are dropped in an outcome.
func (w *World) droppingOf(u *Unit, list, price *Term) (*dropping, string) {
	why := "the worst ticks of the side are not dropped"
	for _, ev := range u.Events {
		if ev.Kind != "loop" || scanOf(u, ev, list) != nil {
			continue
		}
		for _, i := range sortedMus(ev) {
			mi := ev.Mus[i]
			if mi.Init == nil {
				continue
			}
			tk := listOfLast(mi.Init)
			if tk == nil || !w.buildsPrefix(u, tk, list) {
				continue
			}
			s := scanOf(u, muLoop(u, tk), list)
			for _, t := range sortedMus(ev) {
				in := ev.Mus[t].Init
				if t == i || in == nil || muLoop(u, in) != s.ev {
					continue
				}
				return &dropping{loop: ev, total: t, idx: i, list: tk, scan: s}, ""
			}
			why = "the total of the side does not follow its ticks"
		}
	}
	return nil, why
}

func ruleP45(w *World, r *R) {
	x := w.run(w.P.fn(pAmm, "OrderBook", "FindMatchableAmountAtSinglePrice"), nTMA)
	at := "amm.FindMatchableAmountAtSinglePrice"
	r.ob("FIND", at, x.Fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse %s", x.Err)
	ob, price := x.Args[0], x.Args[1]
	sides := []string{"buys", "sells"}
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		f, p := u.Facts, u.Out.Pos
		if f.contra(w.sideFlag(ob, "buys")) || f.contra(w.sideFlag(ob, "sells")) {
			continue
		}
		found := u.Out.Vals[1]
		// every tick within the limit takes part at first
		none := false
		for _, sd := range sides {
			list := w.ticksOf(ob, sd)
			for _, s := range scans(u, u.Events, list) {
				lit := w.sideFlag(ob, sd)
				ok := s.done(f)
				if !ok {
					c := w.tickClasses(f.with(lit.a, lit.p), s.el, sd, price)
					ok = c&(tickBetter|tickAt) == 0
				}
				r.ob("FIND-ALL", at+" "+sd, s.ev.Pos, ok, "ticks whose orders accept the price are left out")
				for _, m := range sortedMus(s.ev) {
					if w.buildsPrefix(u, m, list) && (f.has(eqL(mkLen(m), ci(0))) || f.has(eqL(linAdd(mkLen(m), ci(1), -1, nil), ci(-1)))) {
						none = true
					}
				}
			}
			if f.has(eqL(mkLen(list), ci(0))) {
				none = true
			}
		}
		db, why := w.droppingOf(u, w.ticksOf(ob, "buys"), price)
		ds, why2 := w.droppingOf(u, w.ticksOf(ob, "sells"), price)
		if db == nil || ds == nil {
			if found == constBool(false) {
				r.ob("FIND-NONE", at, p, none, "nothing is said to match although both sides accept the price")
			} else {
				r.ob("FIND-DROPPED", at, p, false, "%s%s", why, why2)
			}
			continue
		}
		if !r.ob("FIND-DROPPED", at, p, db.loop == ds.loop, "the two sides are not dropped together") {
			continue
		}
		for _, d := range []*dropping{db, ds} {
			some := f.has(neL(mkLen(d.list), ci(0))) || f.has(ltL(ci(0), mkLen(d.list), true)) || f.has(geL(linAdd(mkLen(d.list), ci(1), -1, nil), ci(0), true))
			r.ob("FIND-RANGE", at, p, some, "a side without a tick within the limit is looked at")
		}
		// what a side would have without its worst tick
		last := func(d *dropping) *Term { return callT(nTMA, w.tickFld(d.cur(), "orders"), price) }
		rest := func(d *dropping) *Term { return linAdd(d.total, last(d), -1, nil) }
		// may: whether the facts say a side's worst tick is not needed (1), is (-1)
		may := func(f *Facts, d, o *dropping, ot *Term, sell bool) int {
			m := mkMinMax("min", []*Term{d.total, ot}, d.total.Typ)
			for _, m := range append([]*Term{m}, minVals(f, d.total, ot)...) {
				switch {
				case f.has(geL(rest(d), m, false)):
					return 1
				case sell && worthless(f, price, linAdd(m, rest(d), -1, nil)) == 1:
					return 1
				case f.has(ltL(rest(d), m, false)) && (!sell || worthless(f, price, linAdd(m, rest(d), -1, nil)) == -1):
					return -1
				}
			}
			return 0
		}
		totals := func(o *dropping) []*Term { return []*Term{o.total, rest(o)} }
		judge := func(f *Facts, d, o *dropping, sell bool, want int) bool {
			for _, ot := range totals(o) {
				if may(f, d, o, ot, sell) == want {
					return true
				}
			}
			return false
		}
		pair := func(sd string) (*dropping, *dropping, bool) {
			if sd == "buys" {
				return db, ds, false
			}
			return ds, db, true
		}
		for i, b := range db.loop.Bodies {
			n := 0
			for _, sd := range sides {
				d, o, sell := pair(sd)
				st, tt := d.step(d.idx, i), d.step(d.total, i)
				switch st {
				case ci(0):
					r.ob("FIND-STEP", at+" "+sd, db.loop.Pos, tt == ci(0), "the total changes although no tick is dropped")
				case ci(-1):
					n++
					r.ob("FIND-STEP", at+" "+sd, db.loop.Pos, tt == linNeg(last(d), nil), "the total does not lose what the dropped tick had")
					r.ob("FIND-DROP", at+" "+sd, db.loop.Pos, judge(b.Facts, d, o, sell, 1), "a tick is dropped although it is needed")
				default:
					r.ob("FIND-STEP", at+" "+sd, db.loop.Pos, false, "ticks are skipped")
				}
			}
			r.ob("FIND-PROGRESS", at, db.loop.Pos, n > 0, "the ticks are looked at again without a change")
		}
		if found == constBool(false) {
			ok := none
			for _, sd := range sides {
				d, o, sell := pair(sd)
				ok = ok || (f.has(eqL(d.idx, ci(0))) || f.has(geL(ci(0), d.idx, true))) && judge(f, d, o, sell, 1)
			}
			r.ob("FIND-NONE", at, p, ok, "nothing is said to match although both sides have something to match")
			continue
		}
		r.ob("FIND-AMOUNT", at, p, isMinOf(f, u.Out.Vals[0], db.total, ds.total), "the amount found is not what both sides can match")
		for _, sd := range sides {
			d, o, sell := pair(sd)
			r.ob("FIND-NEEDED", at+" "+sd, p, may(f, d, o, o.total, sell) == -1, "a tick takes part that gets nothing")
		}
	}
	r.floor("FIND-NONE", 2)
	r.floor("FIND-AMOUNT", 1)
	r.floor("FIND-DROP", 2)
	r.floor("FIND-RANGE", 2)
	r.floor("FIND-NEEDED", 2)
}

// minVals are the terms known to be the smaller of two.
func minVals(f *Facts, a, b *Term) []*Term {
	var r []*Term
	if f.has(geL(b, a, false)) {
		r = append(r, a)
	}
	if f.has(geL(a, b, false)) {
		r = append(r, b)
	}
	return r
}

func isMinOf(f *Facts, t, a, b *Term) bool {
	if t == mkMinMax("min", []*Term{a, b}, t.Typ) {
		return true
	}
	for _, m := range minVals(f, a, b) {
		if t == m {
			return true
		}
	}
	return false
}

// worthless: the facts say that an amount is worth less than one unit at a price
// (1) or at least one (-1).
func worthless(f *Facts, price, amt *Term) int {
	for a := range f.m {
		if a.Op != "eq" && a.Op != "lt" {
			continue
		}
		for k := 0; k < 2; k++ {
			t := a.Args[k]
			if t.Op != "call" || !strings.HasSuffix(t.Name, ".TruncateInt") && !strings.HasSuffix(t.Name, "LegacyDec).TruncateInt64") || len(t.Args) != 1 {
				continue
			}
			m := t.Args[0]
			if m.Op != "call" || len(m.Args) != 2 || !strings.HasSuffix(m.Name, ".MulInt") || m.Args[0] != price || !linSame(f, m.Args[1], amt) {
				continue
			}
			switch {
			case f.has(eqL(t, ci(0))), f.has(geL(ci(0), t, false)):
				return 1
			case f.has(neL(t, ci(0))), f.has(ltL(ci(0), t, false)):
				return -1
			}
		}
	}
	return 0
}
