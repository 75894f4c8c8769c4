package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// counters: identifiers handed out one by one, and the record that keeps the
// last one.
type counter struct {
	rec, idField   string // the record that gets the id
	owner, counter string // the record and field that keep the last id
	ref            string // the new record's reference to the owner
}

var counters = []counter{
	{"Order", "Id", "Pair", "LastOrderId", "PairId"},
	{"DepositRequest", "Id", "Pool", "LastDepositRequestId", "PoolId"},
	{"WithdrawRequest", "Id", "Pool", "LastWithdrawRequestId", "PoolId"},
}

// P22: identifiers are never reused.
func ruleP22(w *World, r *R) {
	live := w.AllUnits("msg", "begin", "end")
	for _, u := range live {
		at, f := u.where(), u.Facts
		// global counters
		for _, g := range [][2]string{{"Pair", "LastPairId"}, {"Pool", "LastPoolId"}} {
			rec, cnt := g[0], g[1]
			key := mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx[cnt])))
			var sets []*Event
			for _, ev := range kvsets(u.Events) {
				if ev.Args[0] == key {
					sets = append(sets, ev)
				}
			}
			news := []recWrite{}
			for _, x := range writes(u.Events, rec) {
				if x.Base == nil && w.isNewRecord(u, rec, x) {
					news = append(news, x)
				}
			}
			r.ob("COUNTER-"+rec, at, u.pos(), len(sets) == len(news), "%d new %s records but %s is written %d times", len(news), rec, cnt, len(sets))
			if len(sets) == 0 {
				continue
			}
			cur := w.kv(key)
			var last *Term
			if f.has(Lit{mk("isnil", "", nil, cur), true}) {
				last = ci(0)
			} else {
				v := recSnap(sets[0])
				if !r.ob("COUNTER-STEP", at, sets[0].Pos, w.encodedUint64(sets[0]) != nil, "%s is stored as %v", cnt, v) {
					continue
				}
				last = uint64Value(v.Typ, cur)
			}
			for i, ev := range sets {
				last = linAdd(last, ci(1), 1, nil)
				got := w.encodedUint64(ev)
				r.ob("COUNTER-STEP", at, ev.Pos, got != nil && f.same(got, last), "%s becomes %v, want %v", cnt, got, last)
				if i < len(news) {
					r.ob("ID-"+rec, at, news[i].Ev.Pos, f.same(F(news[i].Val, "Id"), last), "the new %s gets id %v, want %v", rec, F(news[i].Val, "Id"), last)
				}
			}
			r.Count["NEW-"+rec] += len(news)
		}
		// counters inside pairs and pools
		for _, c := range counters {
			cur := map[*Term]*Term{}
			var alloc []*Term
			var owners []*Term
			for _, x := range writes(u.Events, c.owner) {
				if x.Base == nil {
					if w.isNewRecord(u, c.owner, x) {
						r.ob("COUNTER-START", at, x.Ev.Pos, F(x.Val, c.counter) == ci(0), "a new %s starts with %s = %v", c.owner, c.counter, F(x.Val, c.counter))
						cur[F(x.Val, "Id")] = ci(0)
					} else {
						r.ob("COUNTER-KEEP", at, x.Ev.Pos, false, "cannot relate the written %s to a stored one", c.owner)
					}
					continue
				}
				id := F(x.Base, "Id")
				prev := cur[id]
				if prev == nil {
					prev = F(x.Base, c.counter)
				}
				got := F(x.Val, c.counter)
				next := linAdd(prev, ci(1), 1, nil)
				if f.same(got, next) {
					alloc, owners = append(alloc, next), append(owners, id)
				} else {
					r.ob("COUNTER-KEEP", at, x.Ev.Pos, f.same(got, prev), "%s of a %s goes from %v to %v", c.counter, c.owner, prev, got)
				}
				cur[id] = got
			}
			for _, x := range writes(u.Events, c.rec) {
				if x.Base != nil {
					continue
				}
				id := F(x.Val, c.idField)
				hit := -1
				for i := range alloc {
					if alloc[i] != nil && f.same(id, alloc[i]) && f.same(F(x.Val, c.ref), owners[i]) {
						hit = i
					}
				}
				r.ob("ID-"+c.rec, at, x.Ev.Pos, hit >= 0, "the new %s gets id %v, which %s did not just hand out", c.rec, id, c.counter)
				if hit >= 0 {
					alloc[hit] = nil
				}
				r.Count["NEW-"+c.rec]++
			}
		}
	}
	// counters and their owners are never removed
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis", "export") {
		for _, d := range kvdels(u.Events) {
			p := constPrefix(d.Args[0])
			bad := len(p) == 0
			for _, rec := range []string{"Pair", "Pool", "LastPairId", "LastPoolId"} {
				if len(p) > 0 && p[0] == w.Pfx[rec] {
					bad = true
				}
			}
			r.ob("NEVER-DELETED", u.where(), d.Pos, !bad, "%v is deleted", d.Args[0])
		}
	}
	for _, n := range []string{"NEW-Pair", "NEW-Pool", "NEW-Order", "NEW-DepositRequest", "NEW-WithdrawRequest", "NEVER-DELETED", "COUNTER-START"} {
		r.floor(n, 1)
	}
}

// isNewRecord: a record that does not come from the store.
func (w *World) isNewRecord(u *Unit, rec string, x recWrite) bool {
	return x.Val.Op == "struct" && x.Base == nil
}

// uint64Value is the number held by a stored wrapped integer.
func uint64Value(typ types.Type, kv *Term) *Term {
	return F(mk("dec", typeName(typ), typ, kv), "Value")
}

// encodedUint64 is the number written by a store write of a wrapped integer.
func (w *World) encodedUint64(ev *Event) *Term {
	v := recSnap(ev)
	if v == nil || !hasSuffix(typeName(v.Typ), ".UInt64Value") {
		return nil
	}
	return F(v, "Value")
}

// strKey is the length-prefixed encoding of a string in a store key.
func strKey(f *Facts, s *Term) []*Term {
	b := mk("bytesof", "", nil, s)
	if f.has(eqL(mkLen(s), ci(0))) {
		return nil
	}
	return []*Term{mk("byte", "", nil, mk("conv", "byte", types.Typ[types.Byte], mkLen(s))), b}
}

// idxKey builds an index key: strings are length-prefixed.
func (w *World) idxKey(f *Facts, pfx string, parts ...*Term) *Term {
	args := []*Term{mk("byte", "", nil, constInt(w.Pfx[pfx]))}
	for _, p := range parts {
		if p.Op == "strpart" {
			args = append(args, strKey(f, p.Args[0])...)
		} else {
			args = append(args, p)
		}
	}
	return mkCat(args...)
}

func strPart(s *Term) *Term  { return mk("strpart", "", nil, s) }
func u64Part(t *Term) *Term  { return mk("u64be", "", nil, t) }
func addrPart(a *Term) *Term { return mk("lenpfx", "", nil, addrOf(a)) }

// indexWant is one index entry a record must have: its key and the id it holds
// (nil: empty).
type indexWant struct {
	name string
	key  *Term
	val  *Term
}

func (w *World) indexesOf(f *Facts, rec string, v *Term) []indexWant {
	id := F(v, "Id")
	switch rec {
	case "Pair":
		b, q := F(v, "BaseCoinDenom"), F(v, "QuoteCoinDenom")
		return []indexWant{
			{"PairIndex", w.idxKey(f, "PairIndex", strPart(b), strPart(q)), id},
			{"PairsByDenomsIndex(base,quote)", w.idxKey(f, "PairsByDenomsIndex", strPart(b), strPart(q), u64Part(id)), nil},
			{"PairsByDenomsIndex(quote,base)", w.idxKey(f, "PairsByDenomsIndex", strPart(q), strPart(b), u64Part(id)), nil},
		}
	case "Pool":
		return []indexWant{
			{"PoolByReserveAddressIndex", w.idxKey(f, "PoolByReserveAddressIndex", addrPart(F(v, "ReserveAddress"))), id},
			{"PoolsByPairIndex", w.idxKey(f, "PoolsByPairIndex", u64Part(F(v, "PairId")), u64Part(id)), nil},
		}
	case "DepositRequest":
		return []indexWant{{"DepositRequestIndex", w.idxKey(f, "DepositRequestIndex", addrPart(F(v, "Depositor")), u64Part(F(v, "PoolId")), u64Part(id)), nil}}
	case "WithdrawRequest":
		return []indexWant{{"WithdrawRequestIndex", w.idxKey(f, "WithdrawRequestIndex", addrPart(F(v, "Withdrawer")), u64Part(F(v, "PoolId")), u64Part(id)), nil}}
	case "Order":
		return []indexWant{{"OrderIndex", w.idxKey(f, "OrderIndex", addrPart(F(v, "Orderer")), u64Part(F(v, "PairId")), u64Part(id)), nil}}
	}
	return nil
}

var recNames = []string{"Pair", "Pool", "DepositRequest", "WithdrawRequest", "Order"}
var idxNames = []string{"PairIndex", "PairsByDenomsIndex", "PoolByReserveAddressIndex", "PoolsByPairIndex", "DepositRequestIndex", "WithdrawRequestIndex", "OrderIndex"}

// indexHolds: the store write puts the wanted value into the index entry.
func (w *World) indexHolds(f *Facts, ev *Event, x indexWant) bool {
	if x.val == nil {
		return true
	}
	got := w.encodedUint64(ev)
	return got != nil && f.same(got, x.val)
}

// P24: indexes agree with the records.
func ruleP24(w *World, r *R) {
	for _, u := range w.AllUnits() {
		if u.Entry.Kind == "query" {
			continue
		}
		at, f := u.where(), u.Facts
		used := map[*Event]bool{}
		for _, rec := range recNames {
			for _, x := range writes(u.Events, rec) {
				v := recSnap(x.Ev)
				if v == nil || v.Typ == nil {
					v = x.Val
				}
				// every record sits under the key its own fields say
				rk := recordKeys[pTypes+"."+rec]
				var ids []*Term
				for _, fl := range rk.fields {
					ids = append(ids, F(x.Val, fl))
				}
				r.ob("KEY", at, x.Ev.Pos, x.Ev.Args[0] == w.key(rec, ids...) || w.sameKey(f, x.Ev.Args[0], w.key(rec, ids...)), "a %s is stored under %v, want %v", rec, x.Ev.Args[0], w.key(rec, ids...))
				fresh := x.Base == nil && x.Val.Op == "struct" || u.Entry.Kind == "genesis"
				if !fresh {
					// fields that index entries are built from stay as they are
					for i, want := range w.indexesOf(f, rec, x.Val) {
						was := w.indexesOf(f, rec, x.Base)[i]
						r.ob("INDEXED-FIELDS", at, x.Ev.Pos, was.key == want.key || w.sameKey(f, was.key, want.key), "an update of a %s changes a field its index %s is built from", rec, want.name)
					}
					continue
				}
				for _, want := range w.indexesOf(f, rec, x.Val) {
					ok := false
					for _, ev := range kvsets(u.Events) {
						if (ev.Args[0] == want.key || w.sameKey(f, ev.Args[0], want.key)) && w.indexHolds(f, ev, want) {
							ok = true
							used[ev] = true
						}
					}
					ok = ok || u.Entry.Kind == "genesis" && w.importedElsewhere(u, rec, func(b *Unit, el *Term) bool {
						for _, x := range w.indexesOf(b.Facts, rec, el) {
							for _, ev := range kvsets(b.Events) {
								if x.name == want.name && ev.Args[0] == x.key && w.indexHolds(b.Facts, ev, x) {
									return true
								}
							}
						}
						return false
					})
					r.ob("INDEX-"+want.name, at, x.Ev.Pos, ok, "a new %s gets no entry in %s (key %v)", rec, want.name, want.key)
				}
			}
		}
		// index entries are written only together with their record
		for _, ev := range kvsets(u.Events) {
			p := constPrefix(ev.Args[0])
			if len(p) == 0 {
				r.ob("INDEX-ONLY", at, ev.Pos, false, "a store write whose record type is unknown: %v", ev.Args[0])
				continue
			}
			for _, n := range idxNames {
				if p[0] == w.Pfx[n] {
					if !used[ev] && u.Entry.Kind == "genesis" {
						used[ev] = w.importsIndexOf(u, ev)
					}
					r.ob("INDEX-ONLY", at, ev.Pos, used[ev], "an entry of %s is written without its record: %v", n, ev.Args[0])
				}
			}
		}
		// and removed only together with it
		dels := kvdels(u.Events)
		for _, d := range dels {
			p := constPrefix(d.Args[0])
			if len(p) == 0 {
				r.ob("DELETE-PAIRED", at, d.Pos, false, "a deletion whose record type is unknown: %v", d.Args[0])
				continue
			}
			for _, rec := range recNames {
				if p[0] != w.Pfx[rec] {
					continue
				}
				o := w.deletedRecord(u, rec, d.Args[0])
				if !r.ob("DELETE-KNOWN", at, d.Pos, o != nil, "cannot tell which %s is deleted by %v", rec, d.Args[0]) {
					continue
				}
				for _, want := range w.indexesOf(f, rec, o) {
					ok := false
					for _, e := range dels {
						if e.Args[0] == want.key || w.sameKey(f, e.Args[0], want.key) {
							ok = true
							used[e] = true
						}
					}
					r.ob("DELETE-PAIRED", at, d.Pos, ok, "a %s is deleted but stays in %s", rec, want.name)
				}
			}
		}
		for _, d := range dels {
			p := constPrefix(d.Args[0])
			for _, n := range idxNames {
				if len(p) > 0 && p[0] == w.Pfx[n] {
					r.ob("INDEX-DELETE-ONLY", at, d.Pos, used[d], "an entry of %s is deleted without its record: %v", n, d.Args[0])
				}
			}
		}
	}
	for _, n := range []string{"INDEX-PairIndex", "INDEX-PairsByDenomsIndex(base,quote)", "INDEX-PairsByDenomsIndex(quote,base)", "INDEX-PoolByReserveAddressIndex", "INDEX-PoolsByPairIndex",
		"INDEX-DepositRequestIndex", "INDEX-WithdrawRequestIndex", "INDEX-OrderIndex"} {
		r.floor(n, 1)
	}
	r.floor("DELETE-PAIRED", 1)
	r.floor("KEY", 1)
}

// importedElsewhere: another loop over the same list of the genesis state does
// it for every element.
func (w *World) importedElsewhere(u *Unit, rec string, does func(b *Unit, el *Term) bool) bool {
	us := w.Units(u.Entry)
	gs := w.genesisState(us)
	if gs == nil || len(u.Events) == 0 {
		return false
	}
	for _, l := range genLists {
		if l.rec != rec {
			continue
		}
		for _, lls := range w.listLoops(us, F(gs, l.field)) {
			mine := -1
			for i, ll := range lls {
				for _, b := range ll.bodies {
					for _, e := range b.Events {
						if e == u.Events[0] {
							mine = i
						}
					}
				}
			}
			if mine < 0 {
				continue
			}
			found := false
			for _, ll := range lls {
				all := len(ll.bodies) > 0
				for j, b := range ll.bodies {
					all = all && does(b, ll.els[j])
				}
				found = found || all
			}
			if !found {
				return false
			}
		}
	}
	return true
}

// importsIndexOf: the index entry is the one of an imported record that another
// loop over the same list stores.
func (w *World) importsIndexOf(u *Unit, ev *Event) bool {
	us := w.Units(u.Entry)
	gs := w.genesisState(us)
	if gs == nil {
		return false
	}
	for _, l := range genLists {
		el := elemUnder(u, F(gs, l.field))
		if el == nil {
			continue
		}
		for _, x := range w.indexesOf(u.Facts, l.rec, el) {
			if ev.Args[0] == x.key && w.indexHolds(u.Facts, ev, x) {
				return w.importedElsewhere(u, l.rec, func(b *Unit, el *Term) bool {
					for _, ev := range kvsets(b.Events) {
						if w.importWrite(l.rec, ev, el) {
							return true
						}
					}
					return false
				})
			}
		}
	}
	return false
}

// deletedRecord is the stored record a deletion removes.
func (w *World) deletedRecord(u *Unit, rec string, key *Term) *Term {
	for x := u; x != nil; x = x.Parent {
		for _, it := range newIters(x) {
			d := mk("dec", pTypes+"."+rec, w.typ(rec), mk("iterval", "", nil, it))
			rk := recordKeys[pTypes+"."+rec]
			var ids []*Term
			for _, fl := range rk.fields {
				ids = append(ids, F(d, fl))
			}
			if w.key(rec, ids...) == key {
				return d
			}
		}
	}
	d := mk("dec", pTypes+"."+rec, w.typ(rec), w.kv(key))
	if u.Facts.has(Lit{mk("isnil", "", nil, w.kv(key)), false}) {
		return d
	}
	return nil
}

// sameKey: keys with pairwise equal components.
func (w *World) sameKey(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Op != "cat" || b.Op != "cat" || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] && !f.sameDeep(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// P23: one pair per ordered pair of denominations.
func ruleP23(w *World, r *R) {
	for _, u := range w.AllUnits("msg", "begin", "end") {
		at, f := u.where(), u.Facts
		for _, x := range writes(u.Events, "Pair") {
			if x.Base != nil {
				for _, fl := range []string{"Id", "BaseCoinDenom", "QuoteCoinDenom", "EscrowAddress"} {
					r.ob("PAIR-FIXED-"+fl, at, x.Ev.Pos, f.same(F(x.Val, fl), F(x.Base, fl)), "the %s of a pair changes from %v to %v", fl, F(x.Base, fl), F(x.Val, fl))
				}
				continue
			}
			if !r.ob("PAIR-CREATED-BY", at, x.Ev.Pos, u.Entry.Name == "CreatePair" && u.Out != nil, "%s creates a pair", u.Entry.Name) {
				continue
			}
			b, q := F(x.Val, "BaseCoinDenom"), F(x.Val, "QuoteCoinDenom")
			msg := u.Entry.Msg
			r.ob("PAIR-DENOMS", at, x.Ev.Pos, b == F(msg, "BaseCoinDenom") && q == F(msg, "QuoteCoinDenom"), "the pair is created for %v/%v", b, q)
			r.ob("PAIR-DISTINCT", at, x.Ev.Pos, f.has(neL(b, q)), "a pair can be created with the same base and quote denomination")
			k := w.idxKey(f, "PairIndex", strPart(b), strPart(q))
			absent := f.has(Lit{mk("isnil", "", nil, w.kv(k)), true})
			r.ob("PAIR-UNIQUE", at, x.Ev.Pos, absent, "a second pair for the same denominations is not refused (no check of %v)", k)
			for _, d := range []*Term{b, q} {
				r.ob("PAIR-VALID-DENOM", at, x.Ev.Pos, f.has(Lit{mk("isnil", "", nil, callT("github.com/cosmos/cosmos-sdk/types.ValidateDenom", d)), true}), "denomination %v is not validated", d)
			}
			id := F(x.Val, "Id")
			want := w.callValue(pTypes, "PairEscrowAddress", id)
			r.ob("PAIR-ESCROW", at, x.Ev.Pos, want != nil && f.same(addrOf(F(x.Val, "EscrowAddress")), want), "the escrow account of pair %v is %v, want %v", id, F(x.Val, "EscrowAddress"), want)
			r.ob("PAIR-NO-PRICE", at, x.Ev.Pos, F(x.Val, "LastPrice").Op == "nil", "a new pair has last price %v", F(x.Val, "LastPrice"))
			r.ob("PAIR-FIRST-BATCH", at, x.Ev.Pos, F(x.Val, "CurrentBatchId") == ci(1), "a new pair starts in batch %v", F(x.Val, "CurrentBatchId"))
		}
		for _, ev := range kvsets(u.Events) {
			p := constPrefix(ev.Args[0])
			if len(p) == 0 || p[0] == w.Pfx["PairIndex"] {
				r.ob("PAIR-INDEX-CREATE", at, ev.Pos, len(p) > 0 && newRecord(u, "Pair") != nil, "the pair lookup is overwritten outside pair creation: %v", ev.Args[0])
			}
		}
		for _, d := range kvdels(u.Events) {
			p := constPrefix(d.Args[0])
			r.ob("PAIR-STAYS", at, d.Pos, len(p) > 0 && p[0] != w.Pfx["PairIndex"] && p[0] != w.Pfx["Pair"], "a pair or its lookup entry is deleted: %v", d.Args[0])
		}
	}
	r.escrowDistinct(w)
	for _, n := range []string{"PAIR-UNIQUE", "PAIR-DISTINCT", "PAIR-ESCROW", "PAIR-FIXED-EscrowAddress", "ESCROW-DERIVED"} {
		r.floor(n, 1)
	}
}

// escrowDistinct: escrow and reserve accounts are derived from different
// names for different ids, and from names no other account uses.
func (r *R) escrowDistinct(w *World) {
	id := mk("param", "id", types.Typ[types.Uint64])
	vals := map[string]*Term{}
	for _, n := range []string{"PairEscrowAddress", "PoolReserveAddress"} {
		v := w.callValue(pTypes, n, id)
		fn := w.P.fn(pTypes, "", n)
		p := token.NoPos
		if fn != nil {
			p = fn.Pos()
		}
		ok := v != nil && v.contains(func(t *Term) bool {
			return t.Op == "call" && strings.HasPrefix(t.Name, "strconv.Format") && t.Args[0] == id || t.Op == "fmtint"
		})
		r.ob("ESCROW-DERIVED", n, p, ok, "%s does not depend on the id alone: %v", n, v)
		vals[n] = v
	}
	a, b := vals["PairEscrowAddress"], vals["PoolReserveAddress"]
	r.ob("ESCROW-SEPARATE", "PairEscrowAddress/PoolReserveAddress", token.NoPos, a != nil && b != nil && a != b, "pairs and pools share accounts: %v", a)
	for _, g := range []string{"GlobalEscrowAddress", "DefaultFeeCollectorAddress", "DefaultDustCollectorAddress"} {
		t := w.globalT(pTypes, g)
		r.ob("ESCROW-SEPARATE", g, token.NoPos, t != nil && t != a && t != b, "%s is the account of pairs or pools", g)
	}
}

// ---- P25: store keys ------------------------------------------------------------

// layout describes the components of a store key: b = constant byte, 8 =
// eight bytes big endian, s = length byte and that many bytes, a = length-
// prefixed address, ? = anything else.
func layout(f *Facts, k *Term) string {
	if k == nil || k.Op != "cat" {
		return "?"
	}
	var sb strings.Builder
	as := k.Args
	for i := 0; i < len(as); i++ {
		a := as[i]
		switch {
		case a.Op == "byte":
			if _, ok := a.Args[0].intVal(); ok {
				sb.WriteByte('b')
				continue
			}
			if i+1 < len(as) && as[i+1].Op == "bytesof" {
				n := a.Args[0]
				for n.Op == "conv" {
					n = n.Args[0]
				}
				if n == mkLen(as[i+1].Args[0]) {
					sb.WriteByte('s')
					i++
					continue
				}
			}
			sb.WriteByte('?')
		case a.Op == "u64be":
			sb.WriteByte('8')
		case a.Op == "lenpfx":
			sb.WriteByte('a')
		case a.Op == "bytesof" && f != nil && f.has(eqL(mkLen(a.Args[0]), ci(0))):
			// an empty string without its length
		default:
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// keyLayouts is how each kind of entry is keyed.
var keyLayouts = map[string]string{
	"LastPairId": "b", "LastPoolId": "b", "Pair": "b8", "PairIndex": "bss", "PairsByDenomsIndex": "bss8", "Pool": "b8",
	"PoolByReserveAddressIndex": "ba", "PoolsByPairIndex": "b88", "DepositRequest": "b88", "WithdrawRequest": "b88", "Order": "b88",
	"DepositRequestIndex": "ba88", "WithdrawRequestIndex": "ba88", "OrderIndex": "ba88", "NumMMOrders": "ba8",
}

func ruleP25(w *World, r *R) {
	// distinct prefixes
	byPfx := map[int64]string{}
	var names []string
	for n := range w.Pfx {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := w.Pfx[n]
		r.ob("PREFIX-DISTINCT", n, token.NoPos, byPfx[p] == "", "%s and %s share the store prefix %#x", n, byPfx[p], p)
		byPfx[p] = n
	}
	// every key in use follows the layout of its kind
	seen := map[string]bool{}
	for _, u := range w.AllUnits() {
		for _, ev := range u.Events {
			var full bool
			switch ev.Kind {
			case "kvset", "kvdel":
				full = true
			case "kviter":
			default:
				continue
			}
			k := ev.Args[0]
			id := fmt.Sprintf("%v %d %v", full, ev.Pos, k.ID)
			if seen[id] {
				continue
			}
			seen[id] = true
			r.keyShape(byPfx, u.where(), ev.Pos, u.Facts, k, full)
		}
		for a := range u.Facts.m {
			a.walk(func(t *Term) bool {
				if t.Op == "kvget" {
					id := fmt.Sprint("get", t.Args[0].ID)
					if !seen[id] {
						seen[id] = true
						r.keyShape(byPfx, u.where(), u.pos(), u.Facts, t.Args[0], true)
					}
				}
				return true
			})
		}
	}
	r.floor("KEY-SHAPE", 1)
	r.floor("KEY-ITER", 1)
	// key builders and parsers
	for _, n := range names {
		lay := keyLayouts[n]
		_ = lay
	}
	sp := w.P.SSA[pTypes]
	var fns []*ssa.Function
	for _, m := range sp.Members {
		if fn, ok := m.(*ssa.Function); ok {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	for _, fn := range fns {
		n := fn.Name()
		switch {
		case strings.HasPrefix(n, "Get") && (strings.HasSuffix(n, "Key") || strings.HasSuffix(n, "KeyPrefix")):
			run := w.run(fn)
			r.ob("BUILDER-ANALYSED", n, fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse %s: %s", n, run.Err)
			for _, o := range run.rets() {
				r.keyShape(byPfx, n, fn.Pos(), o.Facts(), o.Vals[0], strings.HasSuffix(n, "Key"))
				r.Count["BUILDER"]++
			}
		case strings.HasPrefix(n, "Parse") && len(fn.Params) == 1 && fn.Params[0].Type().String() == "[]byte":
			r.parser(w, byPfx, fn)
		}
	}
	r.floor("BUILDER", 1)
	r.floor("PARSE", 1)
}

func (r *R) keyShape(byPfx map[int64]string, at string, pos token.Pos, f *Facts, k *Term, full bool) {
	p := constPrefix(k)
	if !r.ob("KEY-SHAPE", at, pos, len(p) > 0 && byPfx[p[0]] != "", "a store key without a known prefix: %v", k) {
		return
	}
	n := byPfx[p[0]]
	want := keyLayouts[n]
	got := layout(f, k)
	empty := 0 // strings known to be empty, which leave nothing in a key
	for a, v := range f.m {
		if v && a.Op == "eq" && (a.Args[0] == ci(0) && a.Args[1].Op == "len" || a.Args[1] == ci(0) && a.Args[0].Op == "len") {
			empty++
		}
	}
	var match func(g, wnt string, skip int) bool
	match = func(g, wnt string, skip int) bool {
		if wnt == "" || g == "" {
			return g == "" && (wnt == "" || strings.Trim(wnt, "s") == "" && len(wnt) <= skip)
		}
		return g[0] == wnt[0] && match(g[1:], wnt[1:], skip) || wnt[0] == 's' && skip > 0 && match(g, wnt[1:], skip-1)
	}
	prefix := func(g, wnt string, skip int) bool {
		for n := range wnt {
			if match(g, wnt[:n+1], skip) {
				return true
			}
		}
		return false
	}
	if full {
		r.ob("KEY-SHAPE", at, pos, match(got, want, empty), "a %s key has components %q, want %q (%v): keys of different entries can coincide", n, got, want, k)
		return
	}
	r.ob("KEY-ITER", at, pos, prefix(got, want, empty), "an iteration over %s starts with components %q, which is no prefix of %q (%v): it can visit other entries", n, got, want, k)
}

// parser: a parser returns exactly the components of the key, computed in
// wide enough arithmetic.
func (r *R) parser(w *World, byPfx map[int64]string, fn *ssa.Function) {
	run := w.run(fn)
	n := fn.Name()
	if !r.ob("PARSE-ANALYSED", n, fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse %s: %s", n, run.Err) {
		return
	}
	key := run.Args[0]
	for _, o := range run.rets() {
		f := o.Facts()
		kind := ""
		for p, nm := range byPfx {
			want := mk("list", "", nil, constInt(p))
			for a, v := range f.m {
				if v && a.Op == "call" && a.Name == "bytes.HasPrefix" && a.Args[0] == key && a.Args[1].Op == "list" && len(a.Args[1].Args) == 1 && a.Args[1].Args[0] == constInt(p) {
					kind = nm
				}
			}
			_ = want
			if f.has(eqL(byteAt(key, ci(0)), constInt(p))) {
				kind = nm
			}
		}
		if !r.ob("PARSE-PREFIX", n, o.Pos, kind != "", "%s accepts keys of any kind", n) {
			continue
		}
		// the components of the layout, as the parser must cut them
		type piece struct {
			k        byte
			from, to *Term
		}
		var ps []piece
		off := ci(0)
		for _, c := range []byte(keyLayouts[kind]) {
			switch c {
			case 'b':
				off = linAdd(off, ci(1), 1, nil)
			case '8':
				to := linAdd(off, ci(8), 1, nil)
				ps = append(ps, piece{c, off, to})
				off = to
			case 's', 'a':
				l := byteAt(key, off)
				from := linAdd(off, ci(1), 1, nil)
				to := linAdd(from, l, 1, nil)
				ps = append(ps, piece{c, from, to})
				off = to
			}
		}
		// results appear in key order; leading components may be left out
		if !r.ob("PARSE", n, o.Pos, len(o.Vals) <= len(ps), "%s returns %d components of %d", n, len(o.Vals), len(ps)) {
			continue
		}
		ps = ps[len(ps)-len(o.Vals):]
		for i, v := range o.Vals {
			p := ps[i]
			t := stripConv(v)
			ok := false
			switch p.k {
			case '8':
				ok = t.Op == "beu64" && r.slicePiece(f, t.Args[0], key, p.from, p.to, off, 8)
			case 's':
				ok = (t.Op == "strof" || t.Op == "conv") && r.slicePiece(f, t.Args[0], key, p.from, p.to, off, 0)
			case 'a':
				ok = r.slicePiece(f, t, key, p.from, p.to, off, 0)
			}
			r.ob("PARSE", fmt.Sprintf("%s result %d", n, i), o.Pos, ok, "%s returns %v as component %d of a %s key, want bytes %v to %v", n, v, i, kind, p.from, p.to)
		}
	}
	// offsets computed in a byte wrap around
	for _, g := range []*ssa.Function{fn} {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok || x.Op != token.ADD && x.Op != token.SUB && x.Op != token.MUL {
					continue
				}
				bt, ok := x.Type().Underlying().(*types.Basic)
				if ok && bt.Info()&types.IsInteger != 0 {
					narrow := bt.Kind() == types.Uint8 || bt.Kind() == types.Int8 || bt.Kind() == types.Uint16 || bt.Kind() == types.Int16
					r.ob("PARSE-WIDE", g.Name(), x.Pos(), !narrow, "an offset into the key is computed in a %s and wraps around for long components", bt)
				}
			}
		}
	}
}

func byteAt(s, i *Term) *Term { return mk("elem", "", types.Typ[types.Byte], s, i) }

// slicePiece: t is key[from:to]; the end may be left open for the last piece.
func (r *R) slicePiece(f *Facts, t, key, from, to, end *Term, width int) bool {
	if t == nil || t.Op != "slice" || t.Args[0] != key || t.Args[1].String() != from.String() {
		return false
	}
	if t.Args[2] == to || t.Args[2].String() == to.String() {
		return true
	}
	// sdk.BigEndianToUint64 reads the first eight bytes; an open end is the
	// end of the key
	open := t.Args[2].Op == "none" || t.Args[2] == mkLen(key)
	return open && to == end
}
