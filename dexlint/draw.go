package main

import (
	"go/types"
	"hash/fnv"
	"strconv"
	"strings"
)

// Elements of a list of stored records that an earlier loop collected: an
// element is one of the values appended there, under the conditions of that
// path. The choice is a fact, so that the second loop can be told apart by
// where its element comes from (and joined to that path again, see fuse).

// collected are the values appended to a list by the paths of the loop that
// built it (nil where a path leaves the list alone).
func collected(mi *MuInfo, mu *Term) []*Term {
	if mi == nil || mi.Init == nil || len(mi.Backs) == 0 {
		return nil
	}
	switch mi.Init.Op {
	case "nil", "zero":
	case "list":
		if len(mi.Init.Args) != 0 {
			return nil
		}
	case "mkslice":
		if mkLen(mi.Init) != ci(0) {
			return nil
		}
	default:
		return nil
	}
	xs := make([]*Term, len(mi.Backs))
	any := false
	for i, b := range mi.Backs {
		v := b.Val
		if v == mu {
			continue
		}
		if v == nil || v.Op != "append" || v.Name == "all" || len(v.Args) != 2 || v.Args[0] != mu {
			return nil
		}
		if v.Args[1].contains(func(t *Term) bool { return t == mu }) {
			return nil
		}
		xs[i] = v.Args[1]
		any = true
	}
	if !any {
		return nil
	}
	return xs
}

func isRecordList(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := sl.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pTypes {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func drawnAtom(i int, list, idx, x *Term) *Term {
	return mk("drawn", strconv.Itoa(i), types.Typ[types.Bool], list, idx, x)
}

// draw splits a state by the origin of a list element.
func (c *fctx) draw(s *State, addr *Term, typ types.Type) []*State {
	if addr == nil || addr.Op != "iaddr" || addr.Args[0].Op != "mu" {
		return nil
	}
	list, idx := addr.Args[0], addr.Args[1]
	mi := s.muOf(list)
	xs := collected(mi, list)
	if xs == nil || !isRecordList(typ) {
		return nil
	}
	// what was collected must still be what is stored: nothing is written
	// since the collecting loop began, except by the loop over the list
	own := ""
	idx.walk(func(t *Term) bool {
		if t.Op == "mu" && c.in.Mus[t] != nil {
			own = c.in.Mus[t].Loop
		} else if k := strings.LastIndex(t.Name, ":"); t.Op == "mu" && k > 0 {
			own = t.Name[:k]
		}
		return true
	})
	for n := s.kv; n != mi.kv; n = n.prev {
		if n == nil || n.tag != own || n.key != nil {
			return nil
		}
	}
	for a := range s.facts.m {
		if a.Op == "drawn" && a.Args[0] == list {
			return nil // known, or another element: not told apart
		}
	}
	var r []*State
	for i, x := range xs {
		if x == nil {
			continue
		}
		f := s.facts
		for a, v := range mi.Backs[i].Facts.m {
			if loopBound(a, mi.Loop) {
				continue
			}
			if f = f.assume(a, v); f == nil {
				break
			}
		}
		if f == nil {
			continue
		}
		st := s.clone()
		st.facts = f.with(drawnAtom(i, list, idx, x), true)
		r = append(r, st)
	}
	return r
}

// loopBound: an atom about the state of a loop, which is another one later.
func loopBound(a *Term, loop string) bool {
	return a.contains(func(t *Term) bool {
		return t.Op == "itervalid" || t.Op == "mu" && strings.HasPrefix(t.Name, loop+":")
	})
}

// muOf is what the loop that a state has passed did to a variable (the same
// loop passed by another path may have done something else).
func (s *State) muOf(mu *Term) *MuInfo {
	for n := s.ev; n != nil; n = n.prev {
		if n.ev.Kind == "loop" && n.ev.Mus[mu] != nil {
			return n.ev.Mus[mu]
		}
	}
	return nil
}

func (c *fctx) drawn(f *Facts, list, idx *Term) *Term {
	if list.Op != "mu" {
		return nil
	}
	for a, v := range f.m {
		if a.Op == "drawn" && v && a.Args[0] == list && a.Args[1] == idx {
			return a.Args[2]
		}
	}
	return nil
}

// fuse joins a loop over a collected list to the loop that collected it: what
// is done with an element later is attributed to the path that appended it.
func fuse(u *Unit) {
	evs := u.Events
	for j := 0; j < len(evs); j++ {
		l2 := evs[j]
		if l2.Kind != "loop" {
			continue
		}
		var list *Term
		ok := len(l2.Bodies) > 0
		for _, b := range l2.Bodies {
			var d *Term
			for a, v := range b.Facts.m {
				if a.Op == "drawn" && v && (l2.Mus != nil && dependsOn(a.Args[1], l2.Mus)) {
					d = a.Args[0]
				}
			}
			ok = ok && d != nil && (list == nil || list == d)
			list = d
		}
		if !ok {
			continue
		}
		for i := 0; i < j; i++ {
			l1 := evs[i]
			if l1.Kind != "loop" || l1.Mus[list] == nil || len(l1.Mus[list].Backs) != len(l1.Bodies) {
				continue
			}
			sc := scanOf(u, l2, list)
			if sc == nil || !sc.done(u.Facts) {
				continue
			}
			xs := collected(l1.Mus[list], list)
			if xs == nil {
				continue
			}
			var nb []*BodyPath
			mus := map[*Term]*MuInfo{}
			// joined records what a path of both loops does to their variables
			joined := func(k, kk int, f *Facts) {
				for _, l := range []struct {
					ev *Event
					k  int
				}{{l1, k}, {l2, kk}} {
					for m, mi := range l.ev.Mus {
						if m == list || len(mi.Backs) != len(l.ev.Bodies) || m == sc.idx {
							continue
						}
						n := mus[m]
						if n == nil {
							n = &MuInfo{}
							*n = *mi
							n.Loop, n.Backs = l1.Loop, nil
							mus[m] = n
						}
						b := MuBack{Val: m, Facts: f}
						if l.k >= 0 {
							b = mi.Backs[l.k]
							b.Facts = f
						}
						n.Backs = append(n.Backs, b)
					}
				}
			}
			for k, p := range l1.Bodies {
				if xs[k] == nil {
					nb = append(nb, p)
					joined(k, -1, p.Facts)
					continue
				}
				for kk, q := range l2.Bodies {
					if !q.Facts.has(Lit{drawnAtom(k, list, sc.idx, xs[k]), true}) {
						continue
					}
					f := p.Facts
					for a, v := range q.Facts.m {
						if a.Op == "drawn" || loopBound(a, l1.Loop) {
							continue
						}
						if f = f.assume(a, v); f == nil {
							break
						}
					}
					if f == nil {
						continue
					}
					bp := &BodyPath{Events: append(append([]*Event(nil), p.Events...), q.Events...), Facts: f}
					h := fnv.New64a()
					for _, e := range bp.Events {
						h.Write([]byte(e.key()))
					}
					bp.hash = h.Sum64()
					nb = append(nb, bp)
					joined(k, kk, f)
				}
			}
			n := *l1
			n.Bodies = nb
			n.Joined = l2.bankLoop()
			n.Mus = mus
			res := append([]*Event(nil), evs[:i]...)
			res = append(res, &n)
			res = append(res, evs[i+1:j]...)
			res = append(res, evs[j+1:]...)
			u.Events = res
			fuse(u)
			return
		}
	}
}

func dependsOn(t *Term, mus map[*Term]*MuInfo) bool {
	return t.contains(func(x *Term) bool { return mus[x] != nil })
}

// bankLoop names the loop that balances read in a body are read in.
func (e *Event) bankLoop() string {
	if e.Joined != "" {
		return e.Joined
	}
	return e.Loop
}
