package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P34: queries read and do not write; each answers with the stored record that
// was asked for, or with exactly the records that match the request.

func (w *World) queryEntries() []*Entry {
	var es []*Entry
	for _, e := range w.Entries {
		if e.Kind == "query" {
			es = append(es, e)
		}
	}
	return es
}

func isQueryReq(t types.Type) bool {
	return strings.HasPrefix(typeName(t), "*"+pTypes+".Query")
}

// queryParam is the request of a query, which may be absent.
func queryParam(p *ssa.Parameter) *Term {
	return mk("param", "req:"+typeName(p.Type()), p.Type())
}

func queryReq(e *Entry) *Term {
	for _, p := range e.Fn.Params {
		if isQueryReq(p.Type()) {
			t := queryParam(p)
			return mk("deref", "", ptrElem(t), t)
		}
	}
	return nil
}

func ruleP34(w *World, r *R) {
	for _, e := range w.queryEntries() {
		req := queryReq(e)
		r.ob("REQUEST", e.Name, e.Fn.Pos(), req != nil, "takes no request")
		if req == nil {
			continue
		}
		for _, o := range e.Outs {
			for _, ev := range allEvents(o.Events()) {
				ok := true
				switch ev.Kind {
				case "kvset", "kvdel", "bank", "queue", "flush", "pset", "psetone", "emit", "go":
					ok = false
				}
				r.ob("READ-ONLY", e.Name, ev.Pos, ok, "a query changes the state (%s)", ev.Kind)
			}
			r.ob("READ-ONLY", e.Name, o.Pos, true, "")
			if o.Kind == "panic" && !dangling(o.Facts()) {
				w.noPanic(r, e, req, o)
			}
			if dangling(o.Facts()) || o.Kind != "ret" {
				continue
			}
			if !o.Success() {
				r.ob("ANSWERS", e.Name, o.Pos, w.refusal(e, req, o), "refuses for no reason: %s", factList(o.Facts()))
				continue
			}
			v := o.St.mem[o.Vals[0]]
			r.ob("EMPTY-REQUEST", e.Name, o.Pos, e.Name == "QueryParams" || o.Facts().has(neL(req.Args[0], nilTerm)), "an empty request is read")
			if !r.ob("ANSWER", e.Name, o.Pos, v != nil, "answers with %v", o.Vals[0]) {
				continue
			}
			w.wellFormed(r, e, req, o)
			w.answer(r, e, req, o, v)
		}
	}
	for _, rec := range []string{"Pair", "Pool", "DepositRequest", "WithdrawRequest", "Order"} {
		r.floor("THE-RECORD", 1)
		r.floor("LIST-"+rec, 1)
	}
	r.floor("READ-ONLY", 1)
	r.floor("BOOKS", 1)
	r.floor("COUNT", 1)
	r.floor("PARAMS", 1)
	r.floor("POOL-VALUES", 1)
}

func factList(f *Facts) string {
	var s []string
	for a, v := range f.m {
		x := clip(a.str(4))
		if !v {
			x = "not " + x
		}
		s = append(s, x)
	}
	return strings.Join(s, "; ")
}

// refusal: the request is malformed, or what it asks for is not stored.
func (w *World) refusal(e *Entry, req *Term, o *Outcome) bool {
	f := o.Facts()
	onlyReq := func(t *Term) bool {
		return !t.contains(func(x *Term) bool {
			return x.Op == "kvget" || x.Op == "iterval" || x.Op == "iterkey" || x.Op == "bankq" || x.Op == "pparam"
		}) && t.containsTerm(req)
	}
	for a, v := range f.m {
		switch a.Op {
		case "isnil":
			x := a.Args[0]
			if v && x == req.Args[0] {
				return true
			}
			if v && x.Op == "kvget" && w.askedFor(e, req, x.Args[0], o) {
				return true
			}
			if v && e.Name == "QueryOrderBooks" && x.Op == "field" && x.Name == "LastPrice" {
				return true
			}
			if !v && (x.Op == "errres" || x.Op == "bech32err" || x.Op == "call" || x.Op == "res") && (onlyReq(x) || x.Op == "errres") {
				return true
			}
		case "eq":
			if v && a.Args[0] == ci(0) && onlyReq(a.Args[1]) {
				x := a.Args[1]
				if x.Op == "len" {
					x = x.Args[0]
				}
				if x.Op == "field" && (x.Name == "Pagination" || x.Name == "PriceUnitPowers" || x.Name == "Denoms" || e.Name == "QueryPools") {
					continue
				}
				return true
			}
		case "lt": // more denoms than a pair has
			x, n := a.Args[0], ci(3)
			if v {
				x, n = a.Args[1], ci(2)
			}
			if ds := F(req, "Denoms"); ds != nil && x == mkLen(ds) && (a.Args[0] == n || a.Args[1] == n) {
				return true
			}
		case "mapok", "maplookup":
			if k := a.Args[len(a.Args)-1]; v && (onlyReq(k) || k.Op == "elem" && k.Args[0].Op == "list") { // twice in the request
				return true
			}
		}
	}
	return false
}

// askedFor: the key is that of the record the request asks for.
func (w *World) askedFor(e *Entry, req, key *Term, o *Outcome) bool {
	for _, k := range w.requestKeys(e, req, o.Facts()) {
		if k == key {
			return true
		}
	}
	return false
}

// requestKeys are the keys of the records a request names.
func (w *World) requestKeys(e *Entry, req *Term, f *Facts) []*Term {
	switch e.Name {
	case "QueryPair":
		return []*Term{w.key("Pair", F(req, "PairId"))}
	case "QueryPool":
		return []*Term{w.key("Pool", F(req, "PoolId"))}
	case "QueryDepositRequest":
		return []*Term{w.key("DepositRequest", F(req, "PoolId"), F(req, "Id"))}
	case "QueryWithdrawRequest":
		return []*Term{w.key("WithdrawRequest", F(req, "PoolId"), F(req, "Id"))}
	case "QueryOrder":
		return []*Term{w.key("Order", F(req, "PairId"), F(req, "Id"))}
	case "QueryPoolByReserveAddress":
		return []*Term{w.idxKey(f, "PoolByReserveAddressIndex", addrPart(F(req, "ReserveAddress")))}
	case "QueryPoolByPoolCoinDenom":
		for a, v := range f.m {
			if a.Op != "isnil" || a.Args[0].Op != "kvget" {
				continue
			}
			_ = v
			k := a.Args[0].Args[0]
			if w.prefixOf(k, "Pool", 1) && w.denomId(f, F(req, "PoolCoinDenom"), k.Args[1].Args[0]) {
				return []*Term{k}
			}
		}
	case "QueryOrderBooks":
		var ks []*Term
		for a := range f.m {
			if a.Op == "isnil" && a.Args[0].Op == "kvget" {
				k := a.Args[0].Args[0]
				if w.prefixOf(k, "Pair", 1) && k.Args[1].Args[0].Op == "elem" && k.Args[1].Args[0].Args[0] == F(req, "PairIds") {
					ks = append(ks, k)
				}
			}
		}
		return ks
	}
	return nil
}

// denomId: id is the number in a pool coin denom.
func (w *World) denomId(f *Facts, denom, id *Term) bool {
	if id.Op != "res" || id.Name != "0" || id.Args[0].Op != "call" || id.Args[0].Name != "strconv.ParseUint" {
		return false
	}
	c := id.Args[0]
	if !c.containsTerm(denom) || c.Args[1] != ci(10) || !(c.Args[2] == ci(64) || c.Args[2] == ci(0)) || !f.has(isNilL(proj(c, 1))) {
		return false
	}
	s := c.Args[0]
	if s.Op == "elem" && s.Args[1] == ci(1) && s.Args[0].Op == "call" && strings.HasSuffix(s.Args[0].Name, ").FindStringSubmatch") {
		re := s.Args[0].Args[0]
		return s.Args[0].Args[1] == denom && re.Op == "call" && len(re.Args) == 1 && (re.Args[0] == constStr(`^pool([1-9]\d*)$`) || re.Args[0] == constStr(`^pool([1-9][0-9]*)$`)) &&
			f.has(neL(mkLen(s.Args[0]), ci(0)))
	}
	return false
}

func (w *World) answer(r *R, e *Entry, req *Term, o *Outcome, v *Term) {
	f := o.Facts()
	at := e.Name
	record := func(rec, field string, key *Term) {
		kv := w.kv(key)
		r.ob("FOUND", at, o.Pos, f.has(neL(kv, nilTerm)), "answers although nothing is stored under %v", key)
		got := F(v, field)
		r.ob("THE-RECORD", at, o.Pos, got == mk("dec", pTypes+"."+rec, nil, kv), "answers with %v", got)
	}
	switch e.Name {
	case "QueryParams":
		ps := F(v, "Params")
		ok := ps.Op == "pset"
		if !ok {
			ok = true
			for _, n := range structFieldNames(w.typ("Params")) {
				p := F(ps, n)
				ok = ok && p != nil && (w.isParam(p, n) || p.Op == "field" && p.Args[0].Op == "pset")
			}
		}
		r.ob("PARAMS", at, o.Pos, ok, "answers with %v", ps)
	case "QueryPair":
		record("Pair", "Pair", w.requestKeys(e, req, f)[0])
	case "QueryDepositRequest":
		record("DepositRequest", "DepositRequest", w.requestKeys(e, req, f)[0])
	case "QueryWithdrawRequest":
		record("WithdrawRequest", "WithdrawRequest", w.requestKeys(e, req, f)[0])
	case "QueryOrder":
		record("Order", "Order", w.requestKeys(e, req, f)[0])
	case "QueryPool", "QueryPoolByPoolCoinDenom":
		ks := w.requestKeys(e, req, f)
		if r.ob("THE-RECORD", at, o.Pos, len(ks) == 1 && f.has(neL(w.kv(ks[0]), nilTerm)), "answers with no pool that was asked for") {
			w.poolAnswer(r, at, f, o, F(v, "Pool"), mk("dec", pTypes+".Pool", w.typ("Pool"), w.kv(ks[0])), nil, nil)
		}
	case "QueryPoolByReserveAddress":
		k := w.kv(w.requestKeys(e, req, f)[0])
		var rec *Term
		for a, b := range f.m {
			if a.Op == "isnil" && !b && a.Args[0].Op == "kvget" && w.prefixOf(a.Args[0].Args[0], "Pool", 1) {
				id := a.Args[0].Args[0].Args[1].Args[0]
				if id.Op == "field" && id.Name == "Value" && id.Args[0].Op == "dec" && id.Args[0].Args[0] == k {
					rec = mk("dec", pTypes+".Pool", w.typ("Pool"), a.Args[0])
				}
			}
		}
		if r.ob("THE-RECORD", at, o.Pos, rec != nil && f.has(neL(k, nilTerm)), "answers with no pool that was asked for") {
			w.poolAnswer(r, at, f, o, F(v, "Pool"), rec, nil, nil)
		}
	case "QueryNumMMOrders":
		k := w.mmKey(F(req, "Orderer"), F(req, "PairId"))
		n := F(v, "NumMarketMakingOrders")
		r.ob("COUNT", at, o.Pos, w.countIs(f, n, w.mmCount(f, w.kv(k))) || n == w.mmCount(f, w.kv(k)), "answers with %v", n)
	case "QueryPairs":
		w.listAnswer(r, e, req, o, v, "Pair", "Pairs")
	case "QueryPools":
		w.listAnswer(r, e, req, o, v, "Pool", "Pools")
	case "QueryDepositRequests":
		w.listAnswer(r, e, req, o, v, "DepositRequest", "DepositRequests")
	case "QueryWithdrawRequests":
		w.listAnswer(r, e, req, o, v, "WithdrawRequest", "WithdrawRequests")
	case "QueryOrders", "QueryOrdersByOrderer":
		w.listAnswer(r, e, req, o, v, "Order", "Orders")
	case "QueryOrderBooks":
		w.booksAnswer(r, e, req, o, v)
	default:
		r.ob("KNOWN-QUERY", at, o.Pos, false, "a query without a specification")
	}
}

// poolAnswer: a pool's response holds the record and what it has right now.
func (w *World) poolAnswer(r *R, at string, f *Facts, o *Outcome, got, pool, pairId *Term, memos map[*Term]bool) {
	for _, n := range []string{"Type", "Id", "PairId", "Creator", "ReserveAddress", "PoolCoinDenom", "MinPrice", "MaxPrice", "LastDepositRequestId", "LastWithdrawRequestId", "Disabled"} {
		g := F(got, n)
		r.ob("POOL-RECORD", at+" "+n, o.Pos, g != nil && f.same(g, F(pool, n)), "a pool's %s is answered as %v", n, g)
	}
	bal := func(c *Term, quote bool) bool {
		if c == nil {
			return false
		}
		cands := []*Term{w.stored("Pair", F(pool, "PairId"))}
		if pairId != nil {
			cands = append(cands, w.stored("Pair", pairId))
		}
		for _, n := range []string{"BaseCoinDenom", "QuoteCoinDenom"} {
			// out of a map that holds, under each id, the pair with that id
			if d := F(c, "Denom"); d != nil && d.Op == "field" && d.Name == n && d.Args[0].Op == "maplookup" && memos[d.Args[0].Args[0]] && d.Args[0].Args[1] == F(pool, "PairId") && f.has(Lit{mk("mapok", d.Args[0].Name, nil, d.Args[0].Args...), true}) {
				cands = append(cands, d.Args[0])
			}
		}
		for _, pair := range cands {
			d := mkField(pair, w.typ("Pair"), fieldIdx(w.typ("Pair"), "BaseCoinDenom"))
			if quote {
				d = mkField(pair, w.typ("Pair"), fieldIdx(w.typ("Pair"), "QuoteCoinDenom"))
			}
			if F(c, "Denom") == d && isBalance(F(c, "Amount"), addrOf(F(pool, "ReserveAddress")), d) {
				return true
			}
		}
		return false
	}
	b := F(got, "Balances")
	r.ob("POOL-VALUES", at, o.Pos, b != nil && bal(F(b, "BaseCoin"), false), "the base coin is %v", F(b, "BaseCoin"))
	r.ob("POOL-VALUES", at, o.Pos, b != nil && bal(F(b, "QuoteCoin"), true), "the quote coin is %v", F(b, "QuoteCoin"))
	r.ob("POOL-VALUES", at, o.Pos, isSupply(F(got, "PoolCoinSupply"), F(pool, "PoolCoinDenom")), "the supply is %v", F(got, "PoolCoinSupply"))
	price := F(got, "Price")
	switch {
	case f.has(Lit{F(pool, "Disabled"), true}):
		r.ob("POOL-PRICE", at, o.Pos, price == nilTerm, "a disabled pool has the price %v", price)
	case f.has(Lit{F(pool, "Disabled"), false}):
		ok := price != nil && (price.Op == "alloc" || price.Op == "ref")
		var p *Term
		if ok {
			p = o.St.mem[price]
			if price.Op == "ref" {
				p = price.Args[0]
			}
			amount := func(quote bool) func(t, a *Term) bool {
				c := "BaseCoin"
				if quote {
					c = "QuoteCoin"
				}
				return func(t, a *Term) bool { return b != nil && F(b, c) != nil && t == F(F(b, c), "Amount") }
			}
			ok = p != nil && (p.Op == "call" || p.Op == "invoke") && strings.HasSuffix(p.Name, ".Price") && len(p.Args) == 1 &&
				w.ammPool(f, p.Args[0], pool, amount(true), amount(false))
		}
		r.ob("POOL-PRICE", at, o.Pos, ok, "a pool's price is %v", p)
	default:
		r.ob("POOL-PRICE", at, o.Pos, false, "whether a pool has a price does not depend on whether it is disabled")
	}
}

// ammPool: the pool to trade with is made of what the stored pool has.
func (w *World) ammPool(f *Facts, p, pool *Term, quote, base func(t, acc *Term) bool) bool {
	for p.Op == "iface" || p.Op == "ref" {
		p = p.Args[0]
	}
	deref := func(n string) *Term { return mk("deref", "", nil, F(pool, n)) }
	res := addrOf(F(pool, "ReserveAddress"))
	basic := p.Op == "call" && p.Name == pAmm+".NewBasicPool" && len(p.Args) == 3 && f.has(eqL(F(pool, "Type"), w.constOf("PoolTypeBasic")))
	ranged := p.Op == "call" && p.Name == pAmm+".NewRangedPool" && len(p.Args) == 5 && f.has(eqL(F(pool, "Type"), w.constOf("PoolTypeRanged"))) && p.Args[3] == deref("MinPrice") && p.Args[4] == deref("MaxPrice")
	return (basic || ranged) && quote(p.Args[0], res) && base(p.Args[1], res)
}

// listAnswer: the list holds exactly the records of the page that match.
func (w *World) listAnswer(r *R, e *Entry, req *Term, o *Outcome, v *Term, rec, field string) {
	at := e.Name
	f := o.Facts()
	rule := "LIST-" + rec
	list, page := F(v, field), F(v, "Pagination")
	r.ob("PAGE", at, o.Pos, page != nil && page.Op == "page" && page.Args[0] == F(req, "Pagination"), "the page is %v", page)
	u := &Unit{Entry: e, Events: o.Events(), Facts: f, Out: o}
	if list == nil {
		list = nilTerm
	}
	var loop *Event
	for _, ev := range u.Events {
		if ev.Kind != "loop" {
			continue
		}
		for _, b := range ev.Bodies {
			for _, x := range b.Events {
				if x.Kind == "hit" {
					r.ob("ONE-SCAN", at, o.Pos, loop == nil || loop == ev, "several scans")
					loop = ev
				}
			}
		}
	}
	if !r.ob(rule, at, o.Pos, loop != nil && loop.Mus[list] != nil, "the list is %v, which no paged scan of the store collects", list) {
		return
	}
	mi := loop.Mus[list]
	r.ob(rule, at, o.Pos, mkLen(mi.Init) == ci(0), "the list starts with %v", mi.Init)
	var it *Term
	for a, x := range f.m {
		if a.Op == "itervalid" && !x {
			it = a.Args[0]
		}
	}
	if !r.ob(rule, at, o.Pos, it != nil && len(mi.Backs) == len(loop.Bodies), "the scan does not run to its end") {
		return
	}
	memos := w.memoMaps(u.Events)
	var noDenom []*Term
	if ds := F(req, "Denoms"); e.Name == "QueryPairs" && !f.has(eqL(mkLen(ds), ci(0))) {
		r.everyElem("DENOMS", at, u, ds, func(f *Facts, el *Term) bool {
			return f.has(isNilL(callT("github.com/cosmos/cosmos-sdk/types.ValidateDenom", el)))
		})
		for i := 0; i < 2; i++ {
			noDenom = append(noDenom, mkLen(mkElem(ds, ci(i))))
		}
	}
	for i, b := range loop.Bodies {
		bf := b.Facts
		if dangling(bf) || hasZero(bf, noDenom) {
			continue
		}
		record, ids := w.listed(e, bf, it, rec)
		if !r.ob(rule, at, o.Pos, record != nil, "reads no %s under %v", rec, it.Args[0]) {
			continue
		}
		if w.absent(bf, record) {
			continue
		}
		if rec == "Pool" && (bf.has(isNilL(w.kv(w.key("Pair", F(record, "PairId"))))) ||
			w.prefixOf(it.Args[0], "PoolsByPairIndex", 1) && it.Args[0].Args[1] == u64Part(F(req, "PairId")) && bf.has(isNilL(w.kv(w.key("Pair", F(req, "PairId")))))) {
			continue // every pool is of a stored pair
		}
		var hit, taken *Term
		for _, x := range b.Events {
			if x.Kind == "hit" {
				r.ob("PAGE", at, o.Pos, hit == nil && x.Args[0] == F(req, "Pagination"), "pages by %v", x.Args[0])
				hit = x.Args[1]
			}
		}
		if hit == nil {
			continue
		}
		taken = mk("taken", "", nil, F(req, "Pagination"), mk("iterrest", "", nil, it))
		a, pol := litOf(hit)
		for _, want := range []bool{true, false} {
			g := bf
			if hit == constBool(true) || hit == constBool(false) {
				if (hit == constBool(true)) != want {
					continue
				}
			} else if g = bf.assume(a, pol == want); g == nil {
				continue
			}
			m := w.listMatch(e, req, g, record, ids, it)
			added := mi.Backs[i].Val != list
			if !want {
				r.ob("LIST-LEFT-OUT", at, o.Pos, m == -1, "a record that may match is left out")
				r.ob("LIST-ONLY", at, o.Pos, !added, "a record that was left out is listed")
				continue
			}
			r.ob("LIST-ONLY", at, o.Pos, m == 1, "a record that may not match is counted: %s", factList(g))
			switch {
			case g.has(Lit{taken, true}):
				val := mi.Backs[i].Snap
				if val == nil {
					val = mi.Backs[i].Val
				}
				if !r.ob("LIST-ADDED", at, o.Pos, val.Op == "append" && val.Name != "all" && len(val.Args) == 2 && val.Args[0] == list, "a record on the page is not listed once: %v", val) {
					continue
				}
				el := val.Args[1]
				for el.Op == "deref" || el.Op == "ref" {
					el = el.Args[0]
				}
				if rec == "Pool" {
					var pid *Term
					if w.prefixOf(it.Args[0], "PoolsByPairIndex", 1) {
						pid = it.Args[0].Args[1].Args[0]
					}
					w.poolAnswer(r, at, g, o, el, record, pid, memos)
				} else {
					r.ob("LIST-ADDED", at, o.Pos, el == record, "lists %v", el)
				}
			case g.has(Lit{taken, false}):
				r.ob("LIST-ADDED", at, o.Pos, !added, "a record that is not on the page is listed")
			default:
				r.ob("LIST-ADDED", at, o.Pos, false, "what is listed does not depend on the page")
			}
		}
	}
}

// memoMaps are the maps of this run in which whatever is put under an id is the
// stored pair with that id.
func (w *World) memoMaps(evs []*Event) map[*Term]bool {
	res := map[*Term]bool{}
	bad := map[*Term]bool{}
	for _, ev := range allEvents(evs) {
		if ev.Kind == "mapdel" {
			bad[ev.Args[0]] = true
		}
		if ev.Kind != "mapset" || ev.Args[0].Op != "mkmap" {
			continue
		}
		pair := w.stored("Pair", ev.Args[1])
		if ev.Args[2] == pair || ev.Facts.has(isNilL(pair.Args[0])) {
			res[ev.Args[0]] = true
		} else {
			bad[ev.Args[0]] = true
		}
	}
	for m := range bad {
		delete(res, m)
	}
	return res
}

// hasZero: one of the terms is zero.
func hasZero(f *Facts, ts []*Term) bool {
	for _, t := range ts {
		if f.has(eqL(t, ci(0))) {
			return true
		}
	}
	return false
}

// absent: nothing is stored where the index points to; index entries and
// records agree (property P24).
func (w *World) absent(f *Facts, record *Term) bool {
	return record.Args[0].Op == "kvget" && f.has(isNilL(record.Args[0]))
}

// listed is the record an iteration stands at, and the ids taken from the key
// of an index entry.
func (w *World) listed(e *Entry, f *Facts, it *Term, rec string) (*Term, []*Term) {
	p := constPrefix(it.Args[0])
	if len(p) == 0 {
		return nil, nil
	}
	if p[0] == w.Pfx[rec] {
		return mk("dec", pTypes+"."+rec, w.typ(rec), mk("iterval", "", nil, it)), nil
	}
	idx := map[string]string{"Pair": "PairsByDenomsIndex", "Pool": "PoolsByPairIndex", "Order": "OrderIndex",
		"DepositRequest": "DepositRequestIndex", "WithdrawRequest": "WithdrawRequestIndex"}[rec]
	if idx == "" || p[0] != w.Pfx[idx] {
		return nil, nil
	}
	key := mk("iterkey", "", nil, it)
	two := rec == "Order" || hasSuffix(rec, "Request")
	// the number at the end of the key, and the one before it
	at := func(t *Term, last bool) (lo, hi *Term) {
		if t.Op != "beu64" || t.Args[0].Op != "slice" || t.Args[0].Args[0] != key {
			return nil, nil
		}
		s := t.Args[0]
		return s.Args[1], s.Args[2]
	}
	for a := range f.m {
		if a.Op != "isnil" || a.Args[0].Op != "kvget" {
			continue
		}
		k := a.Args[0].Args[0]
		if two && w.prefixOf(k, rec, 2) {
			p, i := k.Args[1].Args[0], k.Args[2].Args[0]
			plo, phi := at(p, false)
			ilo, ihi := at(i, true)
			if plo != nil && ilo != nil && ihi.Op == "none" && linSame(f, phi, ilo) && linAdd(phi, plo, -1, nil) == ci(8) {
				return mk("dec", pTypes+"."+rec, w.typ(rec), a.Args[0]), []*Term{p, i}
			}
		}
		if !two && w.prefixOf(k, rec, 1) {
			i := k.Args[1].Args[0]
			if lo, hi := at(i, true); lo != nil && (hi.Op == "none" || linAdd(hi, lo, -1, nil) == ci(8)) {
				return mk("dec", pTypes+"."+rec, w.typ(rec), a.Args[0]), []*Term{i}
			}
		}
	}
	// skipped before the record was read
	for a := range f.m {
		var res *Term
		a.walk(func(t *Term) bool {
			if two && res == nil && t.Op == "beu64" {
				lo, hi := at(t, false)
				if lo != nil && hi.Op != "none" && linAdd(hi, lo, -1, nil) == ci(8) {
					res = t
				}
			}
			return res == nil
		})
		if res != nil {
			i := mk("beu64", "", nil, mk("slice", "", nil, key, res.Args[0].Args[2], mk("none", "", nil)))
			return mk("dec", pTypes+"."+rec, w.typ(rec), w.kv(w.key(rec, res, i))), []*Term{res, i}
		}
	}
	// nothing was read: it must not matter what is stored
	return mk("dec", pTypes+"."+rec, w.typ(rec), mk("unread", "", nil, it)), nil
}

// listMatch: 1 the record matches the request, -1 it does not, 0 it may.
func (w *World) listMatch(e *Entry, req *Term, f *Facts, record *Term, ids []*Term, it *Term) int {
	pfx := it.Args[0]
	is := func(a, b *Term) int {
		switch {
		case f.has(eqL(a, b)):
			return 1
		case f.has(neL(a, b)):
			return -1
		}
		return 0
	}
	// under: the prefix of the scan fixes the first number of the keys
	under := func(rec string, id *Term) bool {
		return w.prefixOf(pfx, rec, 1) && pfx.Args[1] == u64Part(id)
	}
	all := func(rec string) bool { return w.prefixOf(pfx, rec, 0) }
	switch e.Name {
	case "QueryDepositRequests", "QueryWithdrawRequests", "QueryOrders":
		rec, fld := "DepositRequest", "PoolId"
		if e.Name == "QueryWithdrawRequests" {
			rec = "WithdrawRequest"
		}
		if e.Name == "QueryOrders" {
			rec, fld = "Order", "PairId"
		}
		if under(rec, F(req, fld)) {
			return 1
		}
		if !all(rec) {
			return 0
		}
		return is(F(record, fld), F(req, fld))
	case "QueryOrdersByOrderer":
		if pfx != w.idxKey(f, "OrderIndex", addrPart(F(req, "Orderer"))) {
			if pfx == mkCat(w.idxKey(f, "OrderIndex", addrPart(F(req, "Orderer"))), u64Part(F(req, "PairId"))) {
				return 1
			}
			return 0
		}
		if f.has(eqL(F(req, "PairId"), ci(0))) {
			return 1
		}
		k := 0
		if len(ids) > 0 {
			k = is(ids[0], F(req, "PairId"))
		}
		if k == 0 {
			k = is(F(record, "PairId"), F(req, "PairId"))
		}
		if k == -1 && !f.has(neL(F(req, "PairId"), ci(0))) {
			return 0
		}
		return k
	case "QueryPairs":
		ds := F(req, "Denoms")
		n := mkLen(ds)
		d := func(i int) *Term { return strPart(mkElem(ds, ci(i))) }
		switch {
		case f.has(eqL(n, ci(0))):
			if all("Pair") {
				return 1
			}
		case f.has(eqL(n, ci(1))):
			if pfx == w.idxKey(f, "PairsByDenomsIndex", d(0)) {
				return 1
			}
		case f.has(eqL(n, ci(2))):
			if pfx == w.idxKey(f, "PairsByDenomsIndex", d(0), d(1)) {
				return 1
			}
		}
		return 0
	case "QueryPools":
		switch {
		case f.has(eqL(F(req, "PairId"), ci(0))):
			if !all("Pool") {
				return 0
			}
		case f.has(neL(F(req, "PairId"), ci(0))):
			if !under("PoolsByPairIndex", F(req, "PairId")) {
				if !all("Pool") {
					return 0
				}
				if k := is(F(record, "PairId"), F(req, "PairId")); k != 1 {
					return k
				}
			}
		default:
			return 0
		}
		none := eqL(mkLen(F(req, "Disabled")), ci(0))
		if f.has(none) {
			return 1
		}
		if !f.contra(none) {
			return 0
		}
		p := callT("strconv.ParseBool", F(req, "Disabled"))
		if !f.has(isNilL(proj(p, 1))) {
			return 0
		}
		a, b := proj(p, 0), F(record, "Disabled")
		if k := is(a, b); k != 0 {
			return k
		}
		at, bt := f.has(Lit{a, true}), f.has(Lit{b, true})
		af, bf := f.has(Lit{a, false}), f.has(Lit{b, false})
		switch {
		case at && bt || af && bf:
			return 1
		case at && bf || af && bt:
			return -1
		}
	}
	return 0
}

// booksAnswer: for every pair asked for, the book of all its live orders and
// of what its enabled pools would order, after matching.
func (w *World) booksAnswer(r *R, e *Entry, req *Term, o *Outcome, v *Term) {
	at := e.Name
	u := &Unit{Entry: e, Events: o.Events(), Facts: o.Facts(), Out: o}
	list := F(v, "Pairs")
	loop := muLoop(u, list)
	if !r.ob("BOOKS", at, o.Pos, loop != nil, "answers with %v", list) {
		return
	}
	s := scanOf(u, loop, F(req, "PairIds"))
	if !r.ob("BOOKS", at, o.Pos, s != nil && s.done(u.Facts) && mkLen(loop.Mus[list].Init) == ci(0), "pairs that were asked for may be left out") {
		return
	}
	for i, b := range loop.Bodies {
		if dangling(b.Facts) {
			continue
		}
		f := b.Facts
		bu := &Unit{Entry: e, Parent: u, Loop: loop, Events: b.Events, Facts: f}
		pair := w.stored("Pair", s.el)
		r.ob("BOOK-PAIR", at, loop.Pos, f.has(neL(w.kv(pair.Args[0].Args[0]), nilTerm)) && f.has(neL(F(pair, "LastPrice"), nilTerm)), "shows a book of no pair or one without a price")
		books := callEvents(b.Events, nNewBook)
		if !r.ob("BOOK-ONE", at, loop.Pos, len(books) == 1 && mkLen(books[0].Args[0]) == ci(0), "%d books", len(books)) {
			continue
		}
		ob := books[0].Res
		var resp, match, view *Event
		for _, x := range b.Events {
			switch {
			case x.Kind == "call" && x.Name == "(*"+pAmm+".OrderBook).MakeView":
				r.ob("BOOK-VIEW", at, x.Pos, view == nil && x.Args[0] == ob, "several views")
				view = x
			case x.Kind == "call" && x.Name == "(*"+pAmm+".OrderBookView).Match":
				r.ob("BOOK-MATCHED", at, x.Pos, match == nil && view != nil && x.Args[0] == view.Res, "something else is matched")
				match = x
			case x.Kind == "call" && strings.HasPrefix(x.Name, pTypes+".") && view != nil && indexTerm(x.Args, view.Res) >= 0:
				r.ob("BOOK-SHOWN", at, x.Pos, resp == nil && match != nil, "shown before it is matched")
				resp = x
			}
		}
		if !r.ob("BOOK-SHOWN", at, loop.Pos, resp != nil && len(resp.Args) == 6, "no book is shown") {
			continue
		}
		last := mk("deref", "", nil, F(pair, "LastPrice"))
		ratio, tp := param("MaxPriceLimitRatio"), param("TickPrecision")
		lo := callT(pAmm+".PriceToUpTick", decMul(last, linAdd(constInt(1), ratio, -1, nil)), tp)
		hi := callT(pAmm+".PriceToDownTick", decMul(last, linAdd(constInt(1), ratio, 1, nil)), tp)
		r.ob("BOOK-SHOWN", at, resp.Pos, (resp.Args[0] == s.el || resp.Args[0] == F(pair, "Id")) && resp.Args[2] == lo && resp.Args[3] == hi && w.isParam(resp.Args[4], "TickPrecision"), "shows %v", resp.Args)
		val := loop.Mus[list].Backs[i].Val
		r.ob("BOOK-SHOWN", at, resp.Pos, val.Op == "append" && val.Name != "all" && len(val.Args) == 2 && val.Args[0] == list && val.Args[1] == resp.Res, "the book is not answered once")
		w.bookParts(r, at, bu, ob, pair, s.el, lo, hi, view)
		w.bookUnits(r, at, bu, req, resp.Args[5])
	}
}

func indexTerm(ts []*Term, t *Term) int {
	for i, x := range ts {
		if x == t {
			return i
		}
	}
	return -1
}

// bookParts: every live order of the pair and the orders of every enabled pool
// are put in, before the book is looked at.
func (w *World) bookParts(r *R, at string, u *Unit, ob, pair, id, lo, hi *Term, view *Event) {
	f := u.Facts
	orders, pools := 0, 0
	for i, l := range u.Events {
		if l.Kind == "call" && l.Name == "(*"+pAmm+".OrderBook).AddOrder" {
			r.ob("BOOK-ORDERS", at, l.Pos, false, "puts in %v", l.Args[1])
		}
		if l.Kind != "loop" {
			continue
		}
		adds := false
		for _, x := range allEvents([]*Event{l}) {
			adds = adds || x.Kind == "call" && x.Name == "(*"+pAmm+".OrderBook).AddOrder"
		}
		if !adds {
			continue
		}
		r.ob("BOOK-ORDERS", at, l.Pos, i < indexOf(u.Events, view), "orders are put in after the book was looked at")
		for _, b := range l.Bodies {
			if dangling(b.Facts) {
				continue
			}
			var in []*Term
			for _, x := range b.Events {
				if x.Kind == "call" && x.Name == "(*"+pAmm+".OrderBook).AddOrder" {
					r.ob("BOOK-ONE", at, x.Pos, x.Args[0] == ob, "orders are put into another book")
					in = append(in, bookEntries(x)...)
				}
			}
			var it *Term
			for a, v := range b.Facts.m {
				if a.Op == "itervalid" && v && a.Args[0].Op == "iter" {
					it = a.Args[0]
				}
			}
			if !r.ob("BOOK-ORDERS", at, l.Pos, it != nil, "orders are put in by another loop") {
				continue
			}
			done := false
			for a, v := range f.m {
				done = done || a.Op == "itervalid" && !v && a.Args[0] == it
			}
			r.ob("BOOK-ALL", at, l.Pos, done, "the scan can stop early")
			switch {
			case it.Args[0] == w.key("Order", id):
				orders++
				order := mk("dec", pTypes+".Order", w.typ("Order"), mk("iterval", "", nil, it))
				st := F(order, "Status")
				live, dead := false, true
				for _, n := range []string{"OrderStatusNotExecuted", "OrderStatusNotMatched", "OrderStatusPartiallyMatched"} {
					live = live || b.Facts.has(eqL(st, w.constOf(n)))
					dead = dead && b.Facts.has(neL(st, w.constOf(n)))
				}
				r.ob("BOOK-LIVE", at, l.Pos, len(in) == 1 && live || len(in) == 0 && dead, "%d orders are put in for a stored one", len(in))
				for _, x := range in {
					base := baseOrderOf(x)
					r.ob("BOOK-LIVE", at, l.Pos, base != nil && (F(base, "Price") == F(order, "Price") || b.Facts.contra(eqL(F(order, "Direction"), ci(1))) && b.Facts.contra(eqL(F(order, "Direction"), ci(2)))), "puts in %v", x)
				}
			case w.prefixOf(it.Args[0], "PoolsByPairIndex", 1) && it.Args[0].Args[1] == u64Part(id):
				pools++
				pool, _ := w.listed(u.Entry, b.Facts, it, "Pool")
				if !r.ob("BOOK-POOLS", at, l.Pos, pool != nil, "reads no pool") || w.absent(b.Facts, pool) {
					continue
				}
				off := b.Facts.has(Lit{F(pool, "Disabled"), true})
				on := b.Facts.has(Lit{F(pool, "Disabled"), false})
				r.ob("BOOK-POOLS", at, l.Pos, off && len(in) == 0 || on && len(in) == 1, "a pool is put in %d times", len(in))
				for _, x := range in {
					ok := x.Op == "call" && x.Name == pAmm+".PoolOrders" && len(x.Args) == 5 && x.Args[2] == lo && x.Args[3] == hi && w.isParam(x.Args[4], "TickPrecision")
					if ok {
						d := func(n string) func(t, a *Term) bool {
							return func(t, a *Term) bool { return isBalance(t, a, F(pair, n)) }
						}
						ok = w.ammPool(b.Facts, x.Args[0], pool, d("QuoteCoinDenom"), d("BaseCoinDenom"))
					}
					r.ob("BOOK-POOLS", at, l.Pos, ok, "a pool puts in %v", x)
				}
			default:
				r.ob("BOOK-ORDERS", at, l.Pos, false, "orders are put in from %v", it.Args[0])
			}
		}
	}
	r.ob("BOOK-ALL", at, u.pos(), orders > 0 && pools > 0, "a book without orders or pools")
}

// bookUnits: one configuration for each price unit asked for.
func (w *World) bookUnits(r *R, at string, u *Unit, req, cfgs *Term) {
	ps := F(req, "PriceUnitPowers")
	if l := muLoop(u, cfgs); l != nil {
		s := w.anyScan(u, l)
		ok := s != nil && s.done(u.Facts) && mkLen(l.Mus[cfgs].Init) == ci(0) && s.list == ps && u.Facts.has(neL(mkLen(ps), ci(0)))
		for _, b := range l.Mus[cfgs].Backs {
			ok = ok && b.Val.Op == "append" && len(b.Val.Args) == 2 && b.Val.Args[0] == cfgs
			if ok {
				c := b.Val.Args[1]
				ok = stripConv2(F(c, "PriceUnitPower")) == s.el && stripConv2(F(c, "MaxNumTicks")) == F(req, "NumTicks")
			}
		}
		r.ob("BOOK-UNITS", at, l.Pos, ok, "the price units are not those asked for")
		return
	}
	ok := true
	for i, sg := range segments(cfgs) {
		ok = ok && sg.el != nil
		if ok {
			ok = stripConv2(F(sg.el, "PriceUnitPower")) == ci(i) && stripConv2(F(sg.el, "MaxNumTicks")) == F(req, "NumTicks")
		}
	}
	r.ob("BOOK-UNITS", at, u.pos(), ok && len(segments(cfgs)) == 3 && u.Facts.has(eqL(mkLen(ps), ci(0))), "the price units are %v", cfgs)
}

// noPanic: a query for what is not stored is refused, and does not panic.
func (w *World) noPanic(r *R, e *Entry, req *Term, o *Outcome) {
	f := o.Facts()
	for _, k := range w.requestKeys(e, req, f) {
		r.ob("REFUSES", e.Name, o.Pos, !f.has(isNilL(w.kv(k))), "panics when nothing is stored under %v", k)
	}
}

// wellFormed: what is answered was asked for by a well-formed request.
func (w *World) wellFormed(r *R, e *Entry, req *Term, o *Outcome) {
	f := o.Facts()
	rule, at := "WELL-FORMED", e.Name
	some := func(n string) {
		r.ob(rule, at+" "+n, o.Pos, f.has(neL(F(req, n), ci(0))), "answers a request without a %s", n)
	}
	address := func(n string) {
		r.ob(rule, at+" "+n, o.Pos, f.has(bech32OK(F(req, n))), "answers a request whose %s is none", n)
	}
	once := func(n string) {
		ok, why := w.distinct(o, F(req, n))
		r.ob(rule, at+" "+n, o.Pos, ok, "one of the %s may be asked for twice: %s", n, why)
	}
	switch e.Name {
	case "QueryDepositRequests", "QueryWithdrawRequests":
		some("PoolId")
	case "QueryOrders":
		some("PairId")
	case "QueryOrdersByOrderer":
		address("Orderer")
	case "QueryNumMMOrders":
		some("PairId")
		address("Orderer")
	case "QueryOrderBooks":
		some("NumTicks")
		r.ob(rule, at+" PairIds", o.Pos, f.has(neL(mkLen(F(req, "PairIds")), ci(0))), "answers a request for no pair")
		once("PairIds")
		if !f.has(eqL(mkLen(F(req, "PriceUnitPowers")), ci(0))) {
			once("PriceUnitPowers")
		}
	}
}

// distinct: a walk over the list has found no element it had seen before: each
// is not yet in a set when it is put there.
func (w *World) distinct(o *Outcome, list *Term) (bool, string) {
	u := &Unit{Events: o.Events(), Facts: o.Facts(), Out: o}
	why := "no walk over them"
	for _, ev := range u.Events {
		if ev.Kind != "loop" {
			continue
		}
		s := scanOf(u, ev, list)
		if s == nil {
			continue
		}
		if !s.done(u.Facts) {
			why = "the walk may end early"
			continue
		}
		ok := len(ev.Bodies) > 0
		for _, b := range ev.Bodies {
			good := false
			for _, x := range b.Events {
				if x.Kind != "mapset" || x.Args[1] != s.el || x.Args[0].Op != "mkmap" {
					continue
				}
				for a, v := range b.Facts.m {
					good = good || !v && (a.Op == "mapok" || a.Op == "maplookup" && x.Args[2] == constBool(true)) && a.Args[0] == x.Args[0] && a.Args[1] == s.el
				}
			}
			ok = ok && good
		}
		if ok {
			return true, ""
		}
		why = "an element that was seen before is passed over"
	}
	return false, why
}
