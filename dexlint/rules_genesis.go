package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genLists: the lists of the genesis state and what they hold.
var genLists = []struct{ field, rec string }{
	{"Pairs", "Pair"}, {"Pools", "Pool"}, {"DepositRequests", "DepositRequest"}, {"WithdrawRequests", "WithdrawRequest"}, {"Orders", "Order"},
	{"NumMarketMakingOrdersRecords", "NumMMOrdersRecord"},
}

// genesisTerms finds the decoded genesis states an outcome works on.
func (w *World) genesisState(us []*Unit) *Term {
	var gs *Term
	look := func(t *Term) bool {
		if gs == nil && t.Typ != nil && typeName(t.Typ) == pTypes+".GenesisState" && (t.Op == "havoc" || t.Op == "param") {
			gs = t
		}
		return gs == nil
	}
	for _, u := range us {
		for _, ev := range u.Events {
			for _, a := range ev.Args {
				a.walk(look)
			}
		}
		for a := range u.Facts.m {
			a.walk(look)
		}
	}
	return gs
}

// elemUnder is the element of the list that a loop body works on.
func elemUnder(u *Unit, list *Term) *Term {
	n := mkLen(list)
	for a, v := range u.Facts.m {
		if a.Op != "lt" || a.Args[1] != n || !v {
			continue
		}
		if u.Loop != nil {
			if x, ok := u.Loop.Facts.m[a]; ok && x {
				continue
			}
		}
		return mkElem(list, a.Args[0])
	}
	return nil
}

// listLoop is a loop that visits every element of a list.
type listLoop struct {
	top    *Unit
	ev     *Event
	bodies []*Unit
	els    []*Term
}

// listLoops: for every outcome, the loops that visit the whole list.
func (w *World) listLoops(us []*Unit, list *Term) map[*Unit][]*listLoop {
	res := map[*Unit][]*listLoop{}
	for _, u := range us {
		if u.Loop != nil {
			continue
		}
		for _, ev := range u.Events {
			if ev.Kind != "loop" || len(ev.Bodies) == 0 {
				continue
			}
			ll := &listLoop{top: u, ev: ev}
			for _, b := range ev.Bodies {
				bu := &Unit{Entry: u.Entry, Parent: u, Loop: ev, Events: b.Events, Facts: b.Facts}
				el := elemUnder(bu, list)
				if el == nil {
					ll = nil
					break
				}
				ll.bodies = append(ll.bodies, bu)
				ll.els = append(ll.els, el)
			}
			if ll == nil || !loopExhausted(u.Facts, ev, list) {
				continue
			}
			// the index starts at the beginning and moves one at a time
			ok := true
			for _, el := range ll.els {
				ok = ok && w.stepsByOne(u.Entry, el.Args[1])
			}
			if ok {
				res[u] = append(res[u], ll)
			}
		}
	}
	return res
}

// stepsByOne: the loop index in idx starts at the first element and advances
// one at a time.
func (w *World) stepsByOne(e *Entry, idx *Term) bool {
	var mu *Term
	idx.walk(func(t *Term) bool {
		if t.Op == "mu" {
			mu = t
		}
		return mu == nil
	})
	if mu == nil {
		return false
	}
	mi := e.In.Mus[mu]
	if mi == nil || mi.Init == nil {
		return false
	}
	first := linSubst(idx, mu, mi.Init)
	if first != ci(0) {
		return false
	}
	for _, b := range mi.Backs {
		if linAdd(b.Val, mu, -1, nil) != ci(1) {
			return false
		}
	}
	return len(mi.Backs) > 0
}

// linSubst replaces mu by v in a linear index expression.
func linSubst(idx, mu, v *Term) *Term {
	d := linAdd(idx, mu, -1, nil)
	return linAdd(d, v, 1, nil)
}

// ---- P26: export and import carry the whole state --------------------------------

func ruleP26(w *World, r *R) {
	r.export(w)
	r.importAll(w)
	r.coverage(w)
}

func (r *R) export(w *World) {
	e := w.ByName["ExportGenesis"]
	tops := 0
	for _, u := range w.Units(e) {
		at := u.where()
		r.ob("EXPORT-READ-ONLY", at, u.pos(), len(kvsets(u.Events)) == 0 && len(kvdels(u.Events)) == 0 && len(transfers(u.Events)) == 0, "exporting the state changes it")
		if u.Loop != nil {
			continue
		}
		var gs *Term
		pos := e.Fn.Pos()
		look := func(t *Term) {
			t.walk(func(x *Term) bool {
				if x.Op == "struct" && x.Typ != nil && typeName(x.Typ) == pTypes+".GenesisState" {
					gs = x
				}
				return gs == nil
			})
		}
		for _, ev := range u.Events {
			if ev.Kind == "invoke" || ev.Kind == "call" {
				for _, t := range ev.Snap {
					look(t)
				}
				if gs != nil {
					pos = ev.Pos
				}
			}
		}
		for _, t := range u.Out.Vals {
			look(t)
		}
		if !r.ob("EXPORT", at, pos, gs != nil, "the export contains no genesis state built from the store") {
			continue
		}
		tops++
		f := u.Facts
		r.ob("EXPORT-PARAMS", at, pos, F(gs, "Params").Op == "pset", "the exported params are %v", F(gs, "Params"))
		for _, c := range []string{"LastPairId", "LastPoolId"} {
			kv := w.kv(mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx[c]))))
			got := F(gs, c)
			ok := false
			if f.has(Lit{mk("isnil", "", nil, kv), true}) {
				ok = got == ci(0)
			} else {
				ok = got != nil && got.Op == "field" && got.Name == "Value" && got.Args[0].Op == "dec" && got.Args[0].Args[0] == kv
			}
			r.ob("EXPORT-"+c, at, pos, ok, "the exported %s is %v", c, got)
		}
		for _, l := range genLists {
			mu := F(gs, l.field)
			mi := e.In.Mus[mu]
			if !r.ob("EXPORT-"+l.field, at, pos, mi != nil, "the exported %s are %v, not the records collected from the store", l.field, mu) {
				continue
			}
			empty := mi.Init.Op == "nil" || mi.Init.Op == "list" && len(mi.Init.Args) == 0 || mkLen(mi.Init) == ci(0)
			r.ob("EXPORT-"+l.field, at, pos, empty, "the exported %s start with %v", l.field, mi.Init)
			r.ob("EXPORT-"+l.field, at, pos, len(mi.Backs) > 0, "no record is collected for %s", l.field)
			for _, b := range mi.Backs {
				v := b.Snap
				if v == nil {
					v = b.Val
				}
				if !r.ob("EXPORT-ELEM-"+l.field, at, pos, v.Op == "append" && len(v.Args) == 2 && v.Args[0] == mu, "a stored record is left out of %s or added twice: %v", l.field, v) {
					continue
				}
				it := iterIn(b.Facts, w.exportPrefix(l.rec))
				if !r.ob("EXPORT-ELEM-"+l.field, at, pos, it != nil, "%s are not collected from all records of their kind", l.field) {
					continue
				}
				done := false
				for a, v := range f.m {
					if a.Op == "itervalid" && !v && a.Args[0] == it {
						done = true
					}
				}
				r.ob("EXPORT-ALL-"+l.field, at, pos, done, "the scan that collects %s can stop early", l.field)
				el := v.Args[1]
				val := mk("iterval", "", nil, it)
				ok := false
				if l.rec == "NumMMOrdersRecord" {
					ok = r.mmRecord(b.Facts, el, it)
				} else {
					for el.Op == "deref" || el.Op == "ref" {
						el = el.Args[0]
					}
					ok = el.Op == "dec" && el.Name == pTypes+"."+l.rec && el.Args[0] == val
				}
				r.ob("EXPORT-ELEM-"+l.field, at, pos, ok, "%s holds %v instead of the stored record", l.field, el)
			}
		}
	}
	r.floor("EXPORT", 1)
	for _, l := range genLists {
		r.floor("EXPORT-ALL-"+l.field, 1)
	}
}

func (w *World) exportPrefix(rec string) *Term {
	n := rec
	if rec == "NumMMOrdersRecord" {
		n = "NumMMOrders"
	}
	return mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx[n])))
}

// iterIn is the forward iteration over exactly the prefix that the facts say
// is positioned on an element.
func iterIn(f *Facts, prefix *Term) *Term {
	for a, v := range f.m {
		if a.Op == "itervalid" && v && a.Args[0].Op == "iter" && a.Args[0].Args[0] == prefix {
			return a.Args[0]
		}
	}
	return nil
}

// mmRecord: the exported counter is the stored one, for the owner and pair in
// its key.
func (r *R) mmRecord(f *Facts, el, it *Term) bool {
	if el.Op != "struct" {
		return false
	}
	key := mk("iterkey", "", nil, it)
	l := byteAt(key, ci(1))
	owner, pair, num := F(el, "Orderer"), intConv(F(el, "PairId")), intConv(F(el, "NumMarketMakingOrders"))
	from := ci(2)
	to := linAdd(from, l, 1, nil)
	end := linAdd(to, ci(8), 1, nil)
	ownerOK := owner.contains(func(t *Term) bool { return t.Op == "slice" && r.slicePiece(f, t, key, from, to, end, 0) })
	pairOK := pair.Op == "beu64" && r.slicePiece(f, pair.Args[0], key, to, end, end, 8)
	numOK := num.Op == "beu64" && num.Args[0] == mk("iterval", "", nil, it)
	return ownerOK && pairOK && numOK
}

func (r *R) importAll(w *World) {
	e := w.ByName["InitGenesis"]
	us := w.Units(e)
	gs := w.genesisState(us)
	if !r.ob("IMPORT", "InitGenesis", e.Fn.Pos(), gs != nil, "the imported genesis state is not used") {
		return
	}
	for _, u := range us {
		r.ob("IMPORT-NO-COINS", u.where(), u.pos(), len(transfers(u.Events)) == 0 && len(supplyOps(u.Events, "MintCoins")) == 0 && len(supplyOps(u.Events, "BurnCoins")) == 0, "importing the genesis state moves coins")
		r.ob("IMPORT-NO-DELETE", u.where(), u.pos(), len(kvdels(u.Events)) == 0, "importing the genesis state deletes entries")
		if u.Loop != nil {
			continue
		}
		n := 0
		for _, ev := range u.Events {
			if ev.Kind == "pset" {
				n++
				v := ev.Args[len(ev.Args)-1]
				r.ob("IMPORT-PARAMS", "InitGenesis", ev.Pos, n == 1 && v == F(gs, "Params"), "the params become %v", v)
			}
		}
		r.ob("IMPORT-PARAMS", "InitGenesis", u.pos(), n == 1, "the params are set %d times", n)
		for _, c := range []string{"LastPairId", "LastPoolId"} {
			key := mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx[c])))
			n := 0
			for _, ev := range kvsets(u.Events) {
				if ev.Args[0] == key {
					n++
					r.ob("IMPORT-"+c, "InitGenesis", ev.Pos, w.encodedUint64(ev) == F(gs, c), "%s becomes %v", c, w.encodedUint64(ev))
				}
			}
			r.ob("IMPORT-"+c, "InitGenesis", u.pos(), n == 1, "%s is imported %d times", c, n)
		}
	}
	for _, l := range genLists {
		list := F(gs, l.field)
		loops := w.listLoops(us, list)
		for _, u := range us {
			if u.Loop != nil {
				continue
			}
			ok, why := false, "no loop over all of them stores each one"
			for _, ll := range loops[u] {
				good := true
				for i, b := range ll.bodies {
					el := ll.els[i]
					n := 0
					for _, ev := range kvsets(b.Events) {
						if w.importWrite(l.rec, ev, el) {
							n++
						}
					}
					if n != 1 {
						good = false
					}
				}
				ok = ok || good
			}
			r.ob("IMPORT-"+l.field, "InitGenesis", u.pos(), ok, "not all of %s are stored as they are: %s", l.field, why)
		}
	}
	r.floor("IMPORT-PARAMS", 1)
}

// importWrite: the store write puts the genesis element under its own key.
func (w *World) importWrite(rec string, ev *Event, el *Term) bool {
	if rec == "NumMMOrdersRecord" {
		key := mkCat(mk("byte", "", nil, constInt(w.Pfx["NumMMOrders"])), mk("lenpfx", "", nil, addrOf(F(el, "Orderer"))), mk("u64be", "", nil, F(el, "PairId")))
		if ev.Args[0] != key {
			return false
		}
		v := ev.Args[1]
		return v.Op == "u64be" && intConv(v.Args[0]) == F(el, "NumMarketMakingOrders")
	}
	v := recVal(ev, rec)
	if v == nil || v != el {
		return false
	}
	var ids []*Term
	for _, fl := range recordKeys[pTypes+"."+rec].fields {
		ids = append(ids, F(el, fl))
	}
	return ev.Args[0] == w.key(rec, ids...)
}

// coverage: every kind of entry that the chain writes is restored by an
// import, and every kind that is not an index is exported.
func (r *R) coverage(w *World) {
	wrote := func(kinds ...string) map[int64]token.Pos {
		m := map[int64]token.Pos{}
		for _, u := range w.AllUnits(kinds...) {
			for _, ev := range kvsets(u.Events) {
				p := constPrefix(ev.Args[0])
				if len(p) > 0 {
					m[p[0]] = ev.Pos
				}
			}
		}
		return m
	}
	live, gen := wrote("msg", "begin", "end"), wrote("genesis")
	read := map[int64]bool{}
	for _, u := range w.AllUnits("export") {
		for _, ev := range u.Events {
			if ev.Kind == "kviter" {
				if p := constPrefix(ev.Args[0]); len(p) > 0 {
					read[p[0]] = true
				}
			}
		}
		for a := range u.Facts.m {
			a.walk(func(t *Term) bool {
				if t.Op == "kvget" {
					if p := constPrefix(t.Args[0]); len(p) > 0 {
						read[p[0]] = true
					}
				}
				return true
			})
		}
	}
	idx := map[int64]bool{}
	for _, n := range idxNames {
		idx[w.Pfx[n]] = true
	}
	name := map[int64]string{}
	for n, p := range w.Pfx {
		name[p] = n
	}
	for p, pos := range live {
		r.ob("COVER-IMPORT", name[p], pos, gen[p].IsValid(), "entries of kind %s (%#x) are not restored by a genesis import", name[p], p)
		r.ob("COVER-EXPORT", name[p], pos, idx[p] || read[p], "entries of kind %s (%#x) are not exported", name[p], p)
	}
	r.floor("COVER-IMPORT", 1)
}

// ---- P27: genesis validation ------------------------------------------------------

// genCheck is a condition on an element of a genesis list: ok says the facts
// of a surviving path establish it, bad that the facts of a rejecting path
// contradict it.
type genCheck struct {
	name    string
	ok, bad func(u *Unit, el *Term) bool
}

// litsCheck: all literals must hold; one contradicted is a reason to reject.
func litsCheck(name string, lits func(el *Term) []Lit) genCheck {
	return genCheck{name, func(u *Unit, el *Term) bool {
		for _, l := range lits(el) {
			if !u.Facts.has(l) {
				return false
			}
		}
		return true
	}, func(u *Unit, el *Term) bool {
		for _, l := range lits(el) {
			if u.Facts.contra(l) {
				return true
			}
		}
		return false
	}}
}

type genCtx struct {
	w    *World
	gs   *Term
	maps map[string][]*Term // maps filled with the records of a kind, keyed by id
}

func bech32OK(s *Term) Lit { return Lit{mk("isnil", "", nil, mk("bech32err", "", nil, s)), true} }
func errNil(name string, args ...*Term) Lit {
	return Lit{mk("isnil", "", nil, callT(name, args...)), true}
}

// lookups of a record kind in the maps built by the validation.
func (c *genCtx) found(f *Facts, rec string, id *Term, want bool) bool {
	for a, v := range f.m {
		if a.Op == "mapok" && v == want && f.same(a.Args[1], id) {
			for _, m := range c.maps[rec] {
				if a.Args[0] == m {
					return true
				}
			}
		}
	}
	return false
}

// refs lists the looked-up records of a kind with the given id.
func (c *genCtx) refs(f *Facts, rec string, id *Term) []*Term {
	var r []*Term
	for a := range f.m {
		a.walk(func(t *Term) bool {
			if t.Op == "maplookup" {
				for _, m := range c.maps[rec] {
					if t.Args[0] == m && f.same(t.Args[1], id) {
						r = append(r, t)
					}
				}
			}
			return true
		})
	}
	return r
}

func (c *genCtx) exists(name, rec string, id func(el *Term) *Term) genCheck {
	return genCheck{name,
		func(u *Unit, el *Term) bool { return c.found(u.Facts, rec, id(el), true) },
		func(u *Unit, el *Term) bool { return c.found(u.Facts, rec, id(el), false) }}
}

// unique: no two elements share the key.
func (c *genCtx) unique(ref, id string) genCheck {
	keyIs := func(f *Facts, k, el *Term) bool {
		if ref == "" {
			return f.same(k, F(el, id))
		}
		if k.Op == "struct" || k.Op == "list" {
			a, b := false, false
			for _, x := range k.Args {
				a = a || f.same(x, F(el, ref))
				b = b || f.same(x, F(el, id))
			}
			return a && b
		}
		return false
	}
	sets := func(u *Unit, ok func(ev *Event) bool) bool {
		for _, ev := range u.Events {
			if ev.Kind == "mapset" && ok(ev) {
				return true
			}
		}
		return false
	}
	absent := func(f *Facts, m, el *Term, want bool) bool {
		for a, v := range f.m {
			if a.Op == "mapok" && v == want && a.Args[0] == m && keyIs(f, a.Args[1], el) {
				return true
			}
		}
		return false
	}
	// a map to booleans that are set to true
	unmarked := func(f *Facts, m, val, el *Term) bool {
		if val != constBool(true) {
			return false
		}
		for a, v := range f.m {
			if a.Op == "maplookup" && !v && a.Args[0] == m && keyIs(f, a.Args[1], el) {
				return true
			}
		}
		return false
	}
	return genCheck{"UNIQUE", func(u *Unit, el *Term) bool {
		f := u.Facts
		// one map over all elements
		if sets(u, func(ev *Event) bool {
			return keyIs(f, ev.Args[1], el) && (absent(f, ev.Args[0], el, false) || unmarked(f, ev.Args[0], ev.Args[2], el))
		}) {
			return true
		}
		if ref == "" {
			return false
		}
		// a map of maps
		for a, v := range f.m {
			switch {
			case a.Op == "isnil" && a.Args[0].Op == "maplookup":
				a, v = a.Args[0], !v
			case a.Op != "mapok":
				continue
			}
			if !f.same(a.Args[1], F(el, ref)) {
				continue
			}
			outer := a.Args[0]
			if !v { // the first of its parent
				ok := sets(u, func(ev *Event) bool {
					return ev.Args[0] == outer && f.same(ev.Args[1], F(el, ref)) && sets(u, func(in *Event) bool {
						return in.Args[0] == ev.Args[2] && f.same(in.Args[1], F(el, id))
					})
				})
				if ok {
					return true
				}
				continue
			}
			for b, bv := range f.m {
				if b.Op == "mapok" && !bv && f.same(b.Args[1], F(el, id)) && b.Args[0].Op == "maplookup" && b.Args[0].Args[0] == outer && f.same(b.Args[0].Args[1], F(el, ref)) {
					if sets(u, func(in *Event) bool {
						m := in.Args[0]
						return f.same(in.Args[1], F(el, id)) && m.Op == "maplookup" && m.Args[0] == outer && f.same(m.Args[1], F(el, ref))
					}) {
						return true
					}
				}
			}
		}
		return false
	}, func(u *Unit, el *Term) bool {
		f := u.Facts
		for a, v := range f.m {
			if a.Op != "mapok" && (a.Op != "maplookup" || a.Typ == nil || a.Typ.String() != "bool") || !v {
				continue
			}
			if keyIs(f, a.Args[1], el) {
				return true
			}
			if ref != "" && a.Args[0].Op == "maplookup" && f.same(a.Args[1], F(el, id)) && f.same(a.Args[0].Args[1], F(el, ref)) {
				return true
			}
		}
		return false
	}}
}

// eachCoin: every coin of a list satisfies one of two equalities of its
// denomination.
func (c *genCtx) denomsIn(name, field string, want func(f *Facts, el *Term) [][2]*Term) genCheck {
	ok := func(f *Facts, coin, el *Term) bool {
		for _, p := range want(f, el) {
			if f.same(F(coin, "Denom"), p[0]) || f.same(F(coin, "Denom"), p[1]) {
				return true
			}
		}
		return false
	}
	return genCheck{name, func(u *Unit, el *Term) bool {
		list := F(el, field)
		for _, ev := range u.Events {
			if ev.Kind != "loop" || len(ev.Bodies) == 0 || !loopExhausted(u.Facts, ev, list) {
				continue
			}
			good := true
			for _, b := range ev.Bodies {
				bu := &Unit{Parent: u, Loop: ev, Events: b.Events, Facts: b.Facts}
				coin := elemUnder(bu, list)
				good = good && coin != nil && ok(b.Facts, coin, el)
			}
			if good {
				return true
			}
		}
		return false
	}, func(u *Unit, el *Term) bool {
		list := F(el, field)
		coin := elemUnder(u, list)
		if coin == nil {
			return false
		}
		for _, p := range want(u.Facts, el) {
			if u.Facts.contra(eqL(F(coin, "Denom"), p[0])) && u.Facts.contra(eqL(F(coin, "Denom"), p[1])) {
				return true
			}
		}
		return false
	}}
}

func (w *World) genChecks(c *genCtx) map[string][]genCheck {
	nz := func(f string) genCheck {
		return litsCheck("NONZERO-"+f, func(el *Term) []Lit { return []Lit{neL(F(el, f), ci(0))} })
	}
	addr := func(f string) genCheck {
		return litsCheck("ADDRESS-"+f, func(el *Term) []Lit { return []Lit{bech32OK(F(el, f))} })
	}
	sdkPkg := "github.com/cosmos/cosmos-sdk/types"
	denom := func(f string) genCheck {
		return litsCheck("DENOM-"+f, func(el *Term) []Lit { return []Lit{errNil(sdkPkg+".ValidateDenom", F(el, f))} })
	}
	coin := func(f string) genCheck {
		return litsCheck("COIN-"+f, func(el *Term) []Lit { return []Lit{errNil(sdkCoin+".Validate", F(el, f))} })
	}
	coins := func(f string) genCheck {
		return litsCheck("COINS-"+f, func(el *Term) []Lit { return []Lit{errNil(sdkCoins+".Validate", F(el, f))} })
	}
	status := func(vs ...int) genCheck {
		return genCheck{"STATUS", func(u *Unit, el *Term) bool { return statusIn(u.Facts, F(el, "Status"), vs...) },
			func(u *Unit, el *Term) bool { return statusNone(u.Facts, F(el, "Status"), vs...) }}
	}
	pid := func(el *Term) *Term { return F(el, "PairId") }
	poolId := func(el *Term) *Term { return F(el, "PoolId") }
	pairDenoms := func(f *Facts, el *Term) [][2]*Term { // of the pool's pair
		var r [][2]*Term
		for _, pool := range c.refs(f, "Pool", F(el, "PoolId")) {
			for _, pair := range c.refs(f, "Pair", F(pool, "PairId")) {
				r = append(r, [2]*Term{F(pair, "BaseCoinDenom"), F(pair, "QuoteCoinDenom")})
			}
		}
		return r
	}
	poolCoin := func(field string) genCheck {
		any := func(u *Unit, el *Term, bad bool) bool {
			for _, pool := range c.refs(u.Facts, "Pool", F(el, "PoolId")) {
				l := eqL(F(el, field, "Denom"), F(pool, "PoolCoinDenom"))
				if !bad && u.Facts.has(l) || bad && u.Facts.contra(l) {
					return true
				}
			}
			return false
		}
		return genCheck{"POOL-COIN", func(u *Unit, el *Term) bool { return any(u, el, false) }, func(u *Unit, el *Term) bool { return any(u, el, true) }}
	}
	orderDenom := func(name, field string, offer bool) genCheck {
		any := func(u *Unit, el *Term, bad bool) bool {
			f := u.Facts
			for _, pair := range c.refs(f, "Pair", F(el, "PairId")) {
				b, q := F(pair, "BaseCoinDenom"), F(pair, "QuoteCoinDenom")
				var want *Term
				switch {
				case statusIn(f, F(el, "Direction"), 1):
					want = q
					if !offer {
						want = b
					}
				case statusIn(f, F(el, "Direction"), 2):
					want = b
					if !offer {
						want = q
					}
				}
				if want == nil {
					continue
				}
				l := eqL(F(el, field, "Denom"), want)
				if !bad && f.has(l) || bad && f.contra(l) {
					return true
				}
			}
			return false
		}
		return genCheck{name, func(u *Unit, el *Term) bool { return any(u, el, false) }, func(u *Unit, el *Term) bool { return any(u, el, true) }}
	}
	return map[string][]genCheck{
		"Pair": {c.unique("", "Id"), nz("Id"),
			litsCheck("LAST-ID", func(el *Term) []Lit { return []Lit{geL(F(c.gs, "LastPairId"), F(el, "Id"), true)} }),
			denom("BaseCoinDenom"), denom("QuoteCoinDenom"), addr("EscrowAddress"), nz("CurrentBatchId"),
			genCheck{"LAST-PRICE", func(u *Unit, el *Term) bool {
				lp := F(el, "LastPrice")
				n := Lit{mk("isnil", "", nil, lp), true}
				return u.Facts.has(n) || u.Facts.contra(n) && posDeref(u.Facts, lp, true)
			}, func(u *Unit, el *Term) bool {
				lp := F(el, "LastPrice")
				return u.Facts.contra(Lit{mk("isnil", "", nil, lp), true}) && posDeref(u.Facts, lp, false)
			}}},
		"Pool": {c.unique("", "Id"), nz("Id"), c.exists("PAIR-EXISTS", "Pair", pid),
			litsCheck("LAST-ID", func(el *Term) []Lit { return []Lit{geL(F(c.gs, "LastPoolId"), F(el, "Id"), true)} }),
			addr("ReserveAddress"), denom("PoolCoinDenom"), nz("PairId")},
		"DepositRequest": {c.unique("PoolId", "Id"), nz("Id"), c.exists("POOL-EXISTS", "Pool", poolId), addr("Depositor"),
			coins("DepositCoins"), coins("AcceptedCoins"), coin("MintedPoolCoin"), poolCoin("MintedPoolCoin"), status(rqNotExecuted, rqSucceeded, rqFailed),
			c.denomsIn("DENOMS", "DepositCoins", pairDenoms), nz("PoolId"), nz("MsgHeight"),
			litsCheck("COUNT", func(el *Term) []Lit {
				n := mkLen(F(el, "DepositCoins"))
				return []Lit{neL(n, ci(0)), ltL(n, ci(3), true), ltL(mkLen(F(el, "AcceptedCoins")), ci(3), true)}
			}),
			acceptedDenoms()},
		"WithdrawRequest": {c.unique("PoolId", "Id"), nz("Id"), c.exists("POOL-EXISTS", "Pool", poolId), addr("Withdrawer"),
			coin("PoolCoin"), poolCoin("PoolCoin"), coins("WithdrawnCoins"), status(rqNotExecuted, rqSucceeded, rqFailed), nz("PoolId"), nz("MsgHeight"),
			litsCheck("AMOUNT", func(el *Term) []Lit { return []Lit{neL(F(el, "PoolCoin", "Amount"), ci(0))} }),
			litsCheck("COUNT", func(el *Term) []Lit { return []Lit{ltL(mkLen(F(el, "WithdrawnCoins")), ci(3), true)} })},
		"Order": {c.unique("PairId", "Id"), nz("Id"), c.exists("PAIR-EXISTS", "Pair", pid), addr("Orderer"), nz("BatchId"), nz("PairId"), nz("MsgHeight"),
			coin("OfferCoin"), coin("RemainingOfferCoin"), coin("ReceivedCoin"),
			litsCheck("AMOUNTS", func(el *Term) []Lit {
				return []Lit{ltL(ci(0), F(el, "Price"), false), ltL(ci(0), F(el, "Amount"), false), geL(F(el, "OpenAmount"), ci(0), false), neL(F(el, "OfferCoin", "Amount"), ci(0)),
					eqL(F(el, "OfferCoin", "Denom"), F(el, "RemainingOfferCoin", "Denom"))}
			}),
			litsCheck("EXPIRY", func(el *Term) []Lit { return []Lit{{callT("(time.Time).IsZero", F(el, "ExpireAt")), false}} }),
			genCheck{"DIRECTION", func(u *Unit, el *Term) bool { return statusIn(u.Facts, F(el, "Direction"), 1, 2) }, func(u *Unit, el *Term) bool { return statusNone(u.Facts, F(el, "Direction"), 1, 2) }},
			status(1, 2, 3, 4, 5, 6),
			genCheck{"BATCH", func(u *Unit, el *Term) bool {
				for _, p := range c.refs(u.Facts, "Pair", F(el, "PairId")) {
					if u.Facts.has(geL(F(p, "CurrentBatchId"), F(el, "BatchId"), true)) {
						return true
					}
				}
				return false
			}, func(u *Unit, el *Term) bool {
				for _, p := range c.refs(u.Facts, "Pair", F(el, "PairId")) {
					if u.Facts.contra(geL(F(p, "CurrentBatchId"), F(el, "BatchId"), true)) {
						return true
					}
				}
				return false
			}},
			orderDenom("OFFER-DENOM", "OfferCoin", true), orderDenom("DEMAND-DENOM", "ReceivedCoin", false)},
		"NumMMOrdersRecord": {nz("NumMarketMakingOrders")},
	}
}

// posDeref: the value behind the pointer is known to be positive (or known
// not to be).
func posDeref(f *Facts, p *Term, want bool) bool {
	for a, v := range f.m {
		if a.Op == "lt" && v == want && a.Args[0] == ci(0) && derefOf(a.Args[1]) == p {
			return true
		}
	}
	return false
}

// acceptedDenoms: every accepted coin is of a deposited denomination.
func acceptedDenoms() genCheck {
	lit := func(coin, el *Term) Lit {
		return neL(callT(sdkCoins+".AmountOf", F(el, "DepositCoins"), F(coin, "Denom")), ci(0))
	}
	return genCheck{"ACCEPTED-DENOMS", func(u *Unit, el *Term) bool {
		list := F(el, "AcceptedCoins")
		for _, ev := range u.Events {
			if ev.Kind != "loop" || len(ev.Bodies) == 0 || !loopExhausted(u.Facts, ev, list) {
				continue
			}
			good := true
			for _, b := range ev.Bodies {
				coin := elemUnder(&Unit{Parent: u, Loop: ev, Facts: b.Facts}, list)
				good = good && coin != nil && b.Facts.has(lit(coin, el))
			}
			if good {
				return true
			}
		}
		return false
	}, func(u *Unit, el *Term) bool {
		coin := elemUnder(u, F(el, "AcceptedCoins"))
		return coin != nil && u.Facts.contra(lit(coin, el))
	}}
}

func ruleP27(w *World, r *R) {
	e := w.ByName["InitGenesis"]
	r.accepts(w, "InitGenesis", w.Units(e), nil)
	// the stand-alone validation, used before a chain starts
	if fn := w.P.fn(pTypes, "GenesisState", "Validate"); fn != nil {
		run := w.run(fn)
		if r.ob("VALIDATE-ANALYSED", "GenesisState.Validate", fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse: %s", run.Err) {
			var good, bad []*Unit
			for _, u := range run.units() {
				top := u
				for top.Parent != nil {
					top = top.Parent
				}
				v := top.Out.Vals[0]
				switch {
				case v.Op == "nil" || top.Facts.has(Lit{mk("isnil", "", nil, v), true}):
					good = append(good, u)
				case u.Loop == nil:
					bad = append(bad, u)
				}
			}
			r.accepts(w, "GenesisState.Validate", good, bad)
		}
	} else {
		r.ob("VALIDATE-ANALYSED", "GenesisState.Validate", token.NoPos, false, "not found")
	}
	r.validateGenesis(w)
	r.floor("CHECK-UNIQUE", 1)
	r.floor("REJECT", 1)
}

// accepts: every list is examined in full, and each surviving element
// satisfies every condition; every rejection has a listed reason.
func (r *R) accepts(w *World, at string, us, bad []*Unit) {
	gs := w.genesisState(us)
	if !r.ob("STATE", at, token.NoPos, gs != nil, "no genesis state is examined") {
		return
	}
	c := &genCtx{w: w, gs: gs, maps: map[string][]*Term{}}
	loops := map[string]map[*Unit][]*listLoop{}
	for _, l := range genLists {
		loops[l.field] = w.listLoops(us, F(gs, l.field))
		// maps that hold every record of the kind under its id
		for _, lls := range loops[l.field] {
			for _, ll := range lls {
				count := map[*Term]int{}
				for i, b := range ll.bodies {
					for _, ev := range b.Events {
						if ev.Kind == "mapset" && b.Facts.same(ev.Args[1], F(ll.els[i], "Id")) && ev.Args[2] == ll.els[i] {
							count[ev.Args[0]]++
						}
					}
				}
				for m, n := range count {
					if n == len(ll.bodies) {
						c.maps[l.rec] = append(c.maps[l.rec], m)
					}
				}
			}
		}
	}
	checks := w.genChecks(c)
	for _, u := range us {
		if u.Loop != nil {
			continue
		}
		for _, l := range genLists {
			for _, ck := range checks[l.rec] {
				ok := false
				for _, ll := range loops[l.field][u] {
					good := true
					for i, b := range ll.bodies {
						good = good && ck.ok(b, ll.els[i])
					}
					ok = ok || good
				}
				r.ob("CHECK-"+ck.name, at+" "+l.rec, u.pos(), ok, "a genesis state is accepted in which some %s violates %s", l.rec, ck.name)
			}
		}
	}
	for _, u := range bad {
		why := false
		if paramsReject(u.Facts, F(gs, "Params")) {
			why = true
		}
		for _, l := range genLists {
			el := elemUnder(&Unit{Facts: u.Facts}, F(gs, l.field))
			if el == nil {
				continue
			}
			for _, ck := range checks[l.rec] {
				if ck.bad(u, el) {
					why = true
				}
			}
		}
		r.ob("REJECT", at, u.Out.Pos, why, "a genesis state is rejected although nothing listed is wrong with it, under %v", tailFacts(u.Facts))
	}
}

func tailFacts(f *Facts) string {
	var ss []string
	for _, s := range f.list() {
		if strings.Contains(s, "elem(") {
			ss = append(ss, clip(s))
		}
	}
	return strings.Join(ss, "; ")
}

// paramsReject: the rejection comes from the params.
func paramsReject(f *Facts, ps *Term) bool {
	// nothing about any list has been established yet
	for a := range f.m {
		if a.contains(func(t *Term) bool { return t.Op == "elem" || t.Op == "mu" }) {
			return false
		}
	}
	return true
}

// validateGenesis: the module's pre-start validation runs the full check.
func (r *R) validateGenesis(w *World) {
	t := w.P.namedType(pModule, "AppModuleBasic")
	var fn *ssa.Function
	if t != nil {
		fn = w.method(t, "ValidateGenesis")
	}
	if !r.ob("PRE-START", "AppModuleBasic.ValidateGenesis", token.NoPos, fn != nil, "not found") {
		return
	}
	run := w.run(fn, "!types.GenesisState).Validate")
	if !r.ob("PRE-START", "AppModuleBasic.ValidateGenesis", fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse: %s", run.Err) {
		return
	}
	for _, o := range run.rets() {
		v := o.Vals[len(o.Vals)-1]
		var call *Term
		for _, ev := range o.Events() {
			if ev.Kind == "call" && hasSuffix(ev.Name, "GenesisState).Validate") {
				call = ev.Res
			}
		}
		isNil := v.Op == "nil" || o.Facts().has(Lit{mk("isnil", "", nil, v), true})
		ok := call != nil && (v == call || o.Facts().has(Lit{mk("isnil", "", nil, call), true}) || o.Facts().contra(isNilL(call)) && !o.Success()) || call == nil && !isNil
		r.ob("PRE-START", "AppModuleBasic.ValidateGenesis", o.Pos, ok, "the result is %v without the validation's verdict", v)
	}
}

var _ = types.Typ

// intConv strips integer conversions.
func intConv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "iface") {
		t = t.Args[0]
	}
	return t
}
