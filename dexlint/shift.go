package main

// Inserting by shifting: xs = append(xs, x); copy(xs[i+1:], xs[i:]); xs[i] = v.
// The three together are an insertion of v at i.

// shift notes that all elements from i on moved up by one, over an element
// just appended.
func (s *State) shift(dst, src *Term) {
	if dst.Op != "slice" || src.Op != "slice" || dst.Args[0] != src.Args[0] || dst.Args[2].Op != "none" || src.Args[2].Op != "none" {
		return
	}
	xs := dst.Args[0]
	if xs.Op != "append" || xs.Name == "all" || len(xs.Args) != 2 {
		return
	}
	i := src.Args[1]
	if i.Op == "none" {
		i = constInt(0)
	}
	if linAdd(dst.Args[1], i, -1, nil) != constInt(1) {
		return
	}
	s.mem[mk("shifted", "", nil, xs)] = i
}

// shiftIn completes an insertion: the list now is the one before with v at i.
func (s *State) shiftIn(xs, i, v *Term) bool {
	at, ok := s.mem[mk("shifted", "", nil, xs)]
	if !ok || at != i {
		return false
	}
	delete(s.mem, mk("shifted", "", nil, xs))
	l, t := xs.Args[0], xs.Typ
	none := mk("none", "", nil)
	lo := none
	if v, ok := i.intVal(); !ok || v.Sign() != 0 {
		lo = i
	}
	n := mkAppend(mkAppend(mk("slice", "", t, l, none, i), mk("list", "", t, v), t), mk("slice", "", t, l, lo, none), t)
	for k, x := range s.mem {
		s.mem[k] = substIn(x, xs, n)
	}
	for k, x := range s.fr.env {
		s.fr.env[k] = substIn(x, xs, n)
	}
	return true
}

// substIn replaces a value, also where it is a field of a struct.
func substIn(x, old, repl *Term) *Term {
	if x == old {
		return repl
	}
	if x == nil || x.Op != "struct" || !x.containsTerm(old) {
		return x
	}
	as := make([]*Term, len(x.Args))
	for i, a := range x.Args {
		as[i] = substIn(a, old, repl)
	}
	return mkStruct(x.Typ, as)
}
