package main

// P30: the number of open market making orders kept for an orderer and pair is
// how many there are, and never above the limit.

const orderTypeMM = 3

func ruleP30(w *World, r *R) {
	r.ob("MM-TYPE", "types.OrderTypeMM", 0, w.constOf("OrderTypeMM") == ci(orderTypeMM), "market making orders have another type")
	max := param("MaxNumMarketMakingOrdersPerPair")
	isCount := func(e *Event) bool { return w.prefixOf(e.Args[0], "NumMMOrders", 2) }
	for _, u := range w.AllUnits("msg", "begin", "end") {
		at := u.where()
		var counts []*Event
		for _, e := range u.Events {
			if e.Kind != "kvset" && e.Kind != "kvdel" {
				continue
			}
			p := constPrefix(e.Args[0])
			if len(p) > 0 && p[0] == w.Pfx["NumMMOrders"] {
				r.ob("COUNT-KEY", at, e.Pos, isCount(e), "a count is kept under %v", e.Args[0])
				counts = append(counts, e)
			}
		}
		used := map[*Event]bool{}
		// of finds the one change of the count of an order
		of := func(o *Term) (*Event, int) {
			k := w.mmKey(F(o, "Orderer"), F(o, "PairId"))
			var ev *Event
			n := 0
			for _, e := range counts {
				if e.Args[0] == k || u.Facts.sameDeep(e.Args[0], k) {
					ev = e
					used[e] = true
					n++
				}
			}
			return ev, n
		}
		mm := func(o *Term) int { // 1 market making, -1 not, 0 either
			t := F(o, "Type")
			if v, ok := t.intVal(); ok {
				if v.Int64() == orderTypeMM {
					return 1
				}
				return -1
			}
			if u.Facts.has(eqL(t, ci(orderTypeMM))) {
				return 1
			}
			if u.Facts.has(neL(t, ci(orderTypeMM))) || u.Facts.contra(eqL(t, ci(orderTypeMM))) {
				return -1
			}
			return 0
		}
		ended := map[*Term]bool{}
		for _, x := range writes(u.Events, "Order") {
			if x.Base == nil {
				k := mm(x.Val)
				made := u.Entry.Name == "MMOrder"
				r.ob("MM-MADE", at, x.Ev.Pos, made && k == 1 || !made && k == -1, "an order of type %v is made", F(x.Val, "Type"))
				if k < 0 {
					continue
				}
				ev, n := of(x.Val)
				if !r.ob("COUNT-UP", at, x.Ev.Pos, n == 1 && ev.Kind == "kvset", "the count changes %d times when an order is made", n) {
					continue
				}
				cur := w.mmCount(u.Facts, ev.Old)
				r.ob("COUNT-UP", at, ev.Pos, w.countIs(u.Facts, ev.Args[1], linAdd(cur, ci(1), 1, nil)), "the count becomes %v", ev.Args[1])
				r.ob("COUNT-LIMIT", at, ev.Pos, u.Facts.has(ltL(cur, max, true)) || u.Facts.has(ltL(cur, max, false)), "an order is made although the limit may be reached")
				continue
			}
			r.ob("TYPE-STAYS", at, x.Ev.Pos, F(x.Val, "Type") == F(x.Base, "Type"), "the type of an order becomes %v", F(x.Val, "Type"))
		}
		for _, x := range orderEnds(u.Events) {
			if x.Base == nil || ended[x.Ev.Args[0]] {
				continue
			}
			ended[x.Ev.Args[0]] = true
			ev, n := of(x.Val)
			k := mm(x.Base)
			if k < 0 {
				r.ob("COUNT-ONLY", at, x.Ev.Pos, n == 0, "the count changes when another order ends")
				continue
			}
			if !r.ob("COUNT-DOWN", at, x.Ev.Pos, k > 0 && n == 1, "the count changes %d times when an order ends", n) {
				continue
			}
			cur := w.mmCount(u.Facts, ev.Old)
			if ev.Kind == "kvdel" {
				r.ob("COUNT-DOWN", at, ev.Pos, cur == ci(0) || u.Facts.has(ltL(cur, ci(2), true)) || u.Facts.has(geL(ci(1), cur, true)) || u.Facts.has(eqL(cur, ci(1))), "the count of %v is dropped", cur)
			} else {
				r.ob("COUNT-DOWN", at, ev.Pos, w.countIs(u.Facts, ev.Args[1], linAdd(cur, ci(1), -1, nil)), "the count becomes %v", ev.Args[1])
				r.ob("COUNT-DOWN", at, ev.Pos, u.Facts.has(geL(cur, ci(1), true)) || u.Facts.has(geL(cur, ci(2), true)) || u.Facts.has(ltL(ci(0), cur, true)) || u.Facts.has(neL(ci(0), cur)), "the count may go below none")
			}
		}
		for _, e := range counts {
			r.ob("COUNT-ONLY", at, e.Pos, used[e], "a count changes although no market making order is made or ends")
		}
	}
	r.floor("COUNT-UP", 1)
	r.floor("COUNT-LIMIT", 1)
	r.floor("COUNT-DOWN", 1)
	r.floor("MM-MADE", 1)
}

// mmKey is where the count of an orderer in a pair is kept.
func (w *World) mmKey(orderer, pair *Term) *Term {
	return mkCat(mk("byte", "", nil, constInt(w.Pfx["NumMMOrders"])), mk("lenpfx", "", nil, addrOf(orderer)), mk("u64be", "", nil, pair))
}

// mmCount is the count a store value stands for.
func (w *World) mmCount(f *Facts, kv *Term) *Term {
	if kv == nilTerm || f.has(isNilL(kv)) {
		return ci(0)
	}
	return mk("conv", "uint32", nil, mk("beu64", "", nil, kv))
}

func (w *World) countIs(f *Facts, enc, want *Term) bool {
	if enc.Op != "u64be" {
		return false
	}
	v := enc.Args[0]
	if v.Op == "conv" {
		v = v.Args[0]
	}
	return linSame(f, v, want)
}
