package main

import (
	"go/types"
	"sort"
)

// P49: walks over stored records.

// walkRec is the record type a walk hands to its callback, or a list holds.
func walkRec(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pTypes {
		switch n.Obj().Name() {
		case "Pair", "Pool", "DepositRequest", "WithdrawRequest", "Order":
			return n.Obj().Name()
		}
	}
	return ""
}

// walkPrefix is the part of the store a walk for rec has to cover, given what
// it is asked for.
func (w *World) walkPrefix(rec string, by *Term, byType types.Type) *Term {
	b := func(n string) *Term { return mk("byte", "", nil, constInt(w.Pfx[n])) }
	switch {
	case by == nil:
		return mk("cat", "", nil, b(rec))
	case types.Identical(byType.Underlying(), types.Typ[types.Uint64]):
		n := map[string]string{"Pool": "PoolsByPairIndex", "Order": "Order", "DepositRequest": "DepositRequest", "WithdrawRequest": "WithdrawRequest"}[rec]
		if n == "" {
			return nil
		}
		return mk("cat", "", nil, b(n), mk("u64be", "", nil, by))
	}
	if n, ok := types.Unalias(byType).(*types.Named); ok && n.Obj().Name() == "AccAddress" {
		n := map[string]string{"Order": "OrderIndex", "DepositRequest": "DepositRequestIndex", "WithdrawRequest": "WithdrawRequestIndex"}[rec]
		if n == "" {
			return nil
		}
		return mk("cat", "", nil, b(n), mk("lenpfx", "", nil, by))
	}
	return nil
}

func ruleP49(w *World, r *R) {
	ms := types.NewMethodSet(types.NewPointer(w.P.namedType(pKeep, "Keeper")))
	var names []string
	for i := 0; i < ms.Len(); i++ {
		names = append(names, ms.At(i).Obj().Name())
	}
	sort.Strings(names)
	for _, n := range names {
		fn := w.P.fn(pKeep, "Keeper", n)
		if fn == nil {
			continue
		}
		sig := fn.Signature
		ps := sig.Params()
		var cb, by *Term
		var cbSig *types.Signature
		var byType types.Type
		other := 0
		for i := 0; i < ps.Len(); i++ {
			t := ps.At(i).Type()
			p := entryParam(fn.Params[i+1], i+1)
			if nm, ok := types.Unalias(t).(*types.Named); ok && nm.Obj().Name() == "Context" {
				continue
			}
			if s, ok := t.Underlying().(*types.Signature); ok {
				cb, cbSig = p, s
				continue
			}
			by, byType = p, t
			other++
		}
		if other > 1 {
			continue
		}
		if cb != nil {
			rec := ""
			if cbSig.Params().Len() == 1 {
				rec = walkRec(cbSig.Params().At(0).Type())
			} else if cbSig.Params().Len() == 3 {
				rec = "NumMMOrders"
			}
			if rec != "" {
				r.walker(w, n, rec, cb, cbSig, by, byType)
			}
			continue
		}
		if sig.Results().Len() == 1 {
			if s, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok && walkRec(s.Elem()) != "" {
				r.lister(w, n, walkRec(s.Elem()), by, byType)
			}
		}
	}
	r.floor("WALK", 11)
	r.floor("EACH", 11)
	r.floor("WHOLE", 11)
	r.floor("STOP", 11)
	r.floor("FAILS", 10)
	r.floor("LIST", 9)
	r.floor("LIST-EACH", 9)
}

// steps checks that a path through a walk's loop moves to the next entry once,
// as the last thing it does with the store.
func (r *R) steps(rule, at string, b *BodyPath, it *Term, l *Event) {
	n := 0
	for _, e := range b.Events {
		if e.Kind == "iternext" && e.Args[0] == it {
			n++
		}
	}
	r.ob(rule, at, l.Pos, n == 1, "the walk moves on %d times per entry", n)
}

func (r *R) walker(w *World, name, rec string, cb *Term, cbSig *types.Signature, by *Term, byType types.Type) {
	x := w.run(w.P.fn(pKeep, "Keeper", name), "+iter")
	at := "keeper." + name
	pfx := w.walkPrefix(rec, by, byType)
	if !r.ob("WALK", at, x.Fn.Pos(), x.Err == "" && pfx != nil && len(x.rets()) > 0, "the walk cannot be analysed: %s", x.Err) {
		return
	}
	hasErr := cbSig.Results().Len() == 2
	e := &Entry{Name: name, Kind: "fn", Fn: x.Fn, In: x.In}
	calls := func(evs []*Event) (res []*Event) {
		for _, ev := range evs {
			if ev.Kind == "dyn" && len(ev.Args) > 0 && ev.Args[0] == cb {
				res = append(res, ev)
			}
		}
		return
	}
	// the i'th result of the callback on this path: what the path knows of it
	result := func(f *Facts, i string) (t *Term, val, known bool) {
		for a, v := range f.m {
			c := a
			if c.Op == "isnil" {
				c = c.Args[0]
			}
			base := c
			if hasErr {
				if c.Op != "res" || c.Name != i {
					continue
				}
				base = c.Args[0]
			} else if i != "0" {
				continue
			}
			if len(base.Args) > 0 && base.Args[0] == cb && base.Op != "itervalid" {
				return c, v, true
			}
		}
		return nil, false, false
	}
	handed := func(f *Facts, ev *Event, it *Term) {
		ok := false
		if rec == "NumMMOrders" {
			if len(ev.Args) == 4 {
				ok = r.mmParts(f, ev.Args[1], ev.Args[2], ev.Args[3], it)
			}
		} else if len(ev.Args) == 2 {
			want, _ := w.listed(e, f, it, rec)
			got := ev.Args[1]
			if len(ev.Snap) == 2 && (got.Op == "ref" || got.Op == "alloc") {
				got = ev.Snap[1]
			}
			for got.Op == "deref" || got.Op == "ref" {
				got = got.Args[0]
			}
			ok = want != nil && (got == want || w.absent(f, want))
		}
		r.ob("EACH", at, ev.Pos, ok, "%v is handed out instead of the record stored there", ev.Args[1:])
	}
	var whole, stops, fails bool
	for _, o := range x.rets() {
		f := o.Facts()
		var loop *Event
		for _, ev := range o.Events() {
			if ev.Kind == "loop" {
				loop = ev
			}
		}
		its := 0
		var it *Term
		closed := 0
		for _, ev := range o.Events() {
			switch ev.Kind {
			case "kviter":
				its++
				r.ob("WALK", at, ev.Pos, ev.Args[0] == pfx, "the walk covers %v", ev.Args[0])
			case "iterclose":
				closed++
			}
		}
		for a := range f.m {
			if a.Op == "itervalid" && a.Args[0].Op == "iter" {
				it = a.Args[0]
			}
		}
		if !r.ob("WALK", at, o.Pos, its == 1 && loop != nil && it != nil && it.Args[0] == pfx && it == mk("iter", "fwd", nil, pfx), "the walk does not go once, forward, through all entries of its kind") {
			continue
		}
		r.ob("CLOSED", at, o.Pos, closed == 1, "the iterator is closed %d times", closed)
		valid := true
		for a, v := range f.m {
			if a.Op == "itervalid" && a.Args[0] == it {
				valid = v
			}
		}
		for _, b := range loop.Bodies {
			cs := calls(b.Events)
			if r.ob("EACH", at, loop.Pos, len(cs) == 1 || len(cs) == 0 && w.skips(e, b.Facts, it, rec), "a record is handed out %d times", len(cs)) && len(cs) == 1 {
				handed(b.Facts, cs[0], it)
			}
			r.steps("EACH", at, b, it, loop)
			if len(cs) == 1 {
				_, st, known := result(b.Facts, "0")
				r.ob("STOP", at, loop.Pos, known && !st, "the walk goes on when told to stop")
				if hasErr {
					_, ok, known := result(b.Facts, "1")
					r.ob("FAILS", at, loop.Pos, known && ok, "the walk goes on after an error")
				}
			}
		}
		cs := calls(o.Events())
		errT := nilTerm
		if len(o.Vals) > 0 {
			errT = o.Vals[len(o.Vals)-1]
		}
		if len(cs) == 0 {
			whole = whole || !valid
			r.ob("WHOLE", at, o.Pos, !valid, "the walk ends before the last entry")
			if hasErr {
				r.ob("WHOLE", at, o.Pos, errT == nilTerm, "a walk that reached its end fails with %v", errT)
			}
			continue
		}
		if !r.ob("EACH", at, o.Pos, len(cs) == 1, "a record is handed out %d times", len(cs)) {
			continue
		}
		handed(f, cs[0], it)
		if hasErr {
			if t, ok, known := result(f, "1"); known && !ok {
				fails = true
				r.ob("FAILS", at, o.Pos, errT == t || errT.contains(func(y *Term) bool { return y == t }), "an error is handed on as %v", errT)
				continue
			} else if !r.ob("FAILS", at, o.Pos, known, "an error is not looked at") {
				continue
			}
			r.ob("STOP", at, o.Pos, errT == nilTerm || f.has(isNilL(errT)), "a walk told to stop fails with %v", errT)
		}
		_, st, known := result(f, "0")
		stops = true
		r.ob("STOP", at, o.Pos, known && st, "the walk ends without being told to stop")
	}
	r.ob("WHOLE", at, x.Fn.Pos(), whole, "the walk never reaches its end")
	r.ob("STOP", at, x.Fn.Pos(), stops, "the walk cannot be stopped")
	if hasErr {
		r.ob("FAILS", at, x.Fn.Pos(), fails, "an error never ends the walk")
	}
}

// skips: an index entry without its record may be passed over.
func (w *World) skips(e *Entry, f *Facts, it *Term, rec string) bool {
	if rec == "NumMMOrders" {
		return false
	}
	want, _ := w.listed(e, f, it, rec)
	return want != nil && w.absent(f, want)
}

// mmParts: owner, pair and count are those of the entry.
func (r *R) mmParts(f *Facts, owner, pair, num, it *Term) bool {
	key := mk("iterkey", "", nil, it)
	l := byteAt(key, ci(1))
	pair, num = intConv(pair), intConv(num)
	to := linAdd(ci(2), l, 1, nil)
	end := linAdd(to, ci(8), 1, nil)
	return owner.contains(func(t *Term) bool { return t.Op == "slice" && r.slicePiece(f, t, key, ci(2), to, end, 0) }) &&
		pair.Op == "beu64" && r.slicePiece(f, pair.Args[0], key, to, end, end, 8) &&
		num.Op == "beu64" && num.Args[0] == mk("iterval", "", nil, it)
}

func (r *R) lister(w *World, name, rec string, by *Term, byType types.Type) {
	x := w.run(w.P.fn(pKeep, "Keeper", name), "+iter")
	at := "keeper." + name
	pfx := w.walkPrefix(rec, by, byType)
	if !r.ob("LIST", at, x.Fn.Pos(), x.Err == "" && pfx != nil && len(x.rets()) > 0, "the list cannot be analysed: %s", x.Err) {
		return
	}
	e := &Entry{Name: name, Kind: "fn", Fn: x.Fn, In: x.In}
	it := mk("iter", "fwd", nil, pfx)
	for _, o := range x.rets() {
		f := o.Facts()
		mu := o.Vals[0]
		mi := x.In.Mus[mu]
		if !r.ob("LIST", at, o.Pos, mi != nil, "the list is %v, not what is stored", mu) {
			continue
		}
		empty := mi.Init.Op == "nil" || mi.Init.Op == "list" && len(mi.Init.Args) == 0 || mkLen(mi.Init) == ci(0)
		r.ob("LIST", at, o.Pos, empty, "the list starts with %v", mi.Init)
		r.ob("LIST", at, o.Pos, len(mi.Backs) > 0, "nothing is collected")
		done := false
		for a, v := range f.m {
			done = done || a.Op == "itervalid" && !v && a.Args[0] == it
		}
		r.ob("LIST-ALL", at, o.Pos, done, "the list can end early, or covers other entries than all of its kind")
		for _, b := range mi.Backs {
			v := b.Snap
			if v == nil {
				v = b.Val
			}
			want, _ := w.listed(e, b.Facts, it, rec)
			if want != nil && w.absent(b.Facts, want) {
				continue
			}
			if !r.ob("LIST-EACH", at, o.Pos, v.Op == "append" && len(v.Args) == 2 && v.Args[0] == mu, "a stored record is left out or listed twice: %v", v) {
				continue
			}
			el := v.Args[1]
			for el.Op == "deref" || el.Op == "ref" {
				el = el.Args[0]
			}
			r.ob("LIST-EACH", at, o.Pos, want != nil && el == want, "%v is listed instead of the stored record", el)
		}
		for _, ev := range o.Events() {
			if ev.Kind != "loop" {
				continue
			}
			for _, b := range ev.Bodies {
				if iterIn(b.Facts, pfx) == it {
					r.steps("LIST-EACH", at, b, it, ev)
				}
			}
		}
	}
}
