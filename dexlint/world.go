package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Entry is an externally reachable operation of the module together with the
// complete set of abstract outcomes computed for it.
type Entry struct {
	Name string // e.g. "LimitOrder", "EndBlock"
	Kind string // msg, begin, end, genesis, export, query
	Fn   *ssa.Function
	In   *Interp
	Outs []*Outcome
	Msg  *Term
	VB   *ssa.Function
}

// Unit is one complete abstract path: a successful outcome of an entry, or one
// path through the body of a loop reached on a successful outcome.
type Unit struct {
	Entry  *Entry
	Parent *Unit
	Loop   *Event // nil for the outcome itself
	Events []*Event
	Facts  *Facts
	Out    *Outcome
}

func (u *Unit) where() string {
	s := u.Entry.Name
	if u.Loop != nil {
		s += " loop " + u.Loop.Loop
	}
	return s
}

type World struct {
	callers map[*ssa.Function][]*ssa.Function
	P       *Program
	Entries []*Entry
	ByName  map[string]*Entry
	units   map[*Entry][]*Unit
	fns     map[*ssa.Function]bool
	Pfx     map[string]int64
}

var invariantNames = []string{"deposit-coins-escrow", "pool-coin-escrow", "remaining-offer-coin-escrow", "pool-status", "num-mm-orders"}

var msgNames = []string{"CreatePair", "CreatePool", "CreateRangedPool", "Deposit", "Withdraw", "LimitOrder", "MarketOrder", "MMOrder", "CancelOrder", "CancelAllOrders", "UpdateParams"}

func (w *World) add(name, kind string, fn *ssa.Function, args []*Term, st *State) error {
	if fn == nil {
		return fmt.Errorf("entry point %s not found", name)
	}
	t0 := time.Now()
	in := NewInterp(w.P, defaultPolicy)
	e := &Entry{Name: name, Kind: kind, Fn: fn, In: in}
	if st == nil {
		st = in.freshState()
	}
	for i := len(args); i < len(fn.Params); i++ {
		p := fn.Params[i]
		t := entryParam(p, i)
		if kind == "query" && isQueryReq(p.Type()) {
			t = queryParam(p) // may be none at all
		}
		if strings.HasPrefix(typeName(p.Type()), "*"+pTypes+".Msg") {
			t = mk("param", "*msg"+name, p.Type())
			e.Msg = mk("deref", "", p.Type().Underlying().(*types.Pointer).Elem(), t)
		}
		args = append(args, t)
	}
	starts := []*State{st}
	if e.Msg != nil {
		// transactions reach the handler only after stateless validation
		if vb := w.method(e.Msg.Args[0].Typ, "ValidateBasic"); vb != nil {
			starts = nil
			vin := NewInterp(w.P, defaultPolicy)
			outs := vin.RunWith(vb, []*Term{e.Msg.Args[0]}, vin.freshState())
			if vin.Aborted != "" {
				return fmt.Errorf("analysis of %s.ValidateBasic aborted: %s", name, vin.Aborted)
			}
			seen := map[string]bool{}
			for _, o := range outs {
				if !o.Success() {
					continue
				}
				f := o.Facts()
				if last := o.Vals[len(o.Vals)-1]; last.Op != "nil" {
					a, p := mkEq(last, nilTerm)
					if f = f.assume(a, p); f == nil {
						continue
					}
				}
				k := factKey(f)
				if seen[k] {
					continue
				}
				seen[k] = true
				s := st.clone()
				s.facts = f
				starts = append(starts, s)
			}
			e.VB = vb
		}
	}
	for _, s := range starts {
		e.Outs = append(e.Outs, in.RunWith(fn, args, s)...)
		if in.Aborted != "" {
			return fmt.Errorf("analysis of %s aborted: %s", name, in.Aborted)
		}
	}
	if os.Getenv("DEXLINT_TIME") != "" {
		fmt.Println("entry", name, len(e.Outs), time.Since(t0))
	}
	for f := range in.Analysed {
		w.fns[f] = true
	}
	w.Entries = append(w.Entries, e)
	w.ByName[name] = e
	return nil
}

// implOf finds the concrete method set behind a constructor returning an
// interface (e.g. NewMsgServerImpl).
func (w *World) implOf(ctor *ssa.Function) (types.Type, *Term, *State, error) {
	if ctor == nil {
		return nil, nil, nil, fmt.Errorf("constructor not found")
	}
	in := NewInterp(w.P, defaultPolicy)
	outs := in.Run(ctor)
	for _, o := range outs {
		if o.Kind == "ret" && len(o.Vals) == 1 && o.Vals[0].Op == "iface" {
			st := o.St
			st.ev = nil
			return o.Vals[0].Typ, o.Vals[0].Args[0], st, nil
		}
	}
	return nil, nil, nil, fmt.Errorf("%s does not return a concrete implementation", ctor)
}

func (w *World) method(t types.Type, name string) *ssa.Function {
	ms := w.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

const pModule = "defund/x/dex/module"

func buildWorld(p *Program) (*World, error) {
	w := &World{P: p, ByName: map[string]*Entry{}, units: map[*Entry][]*Unit{}, fns: map[*ssa.Function]bool{}}
	if err := w.prefixes(); err != nil {
		return nil, err
	}
	t, recv, st, err := w.implOf(p.fn(pKeep, "", "NewMsgServerImpl"))
	if err != nil {
		return nil, err
	}
	for _, m := range msgNames {
		s := st.clone()
		if err := w.add(m, "msg", w.method(t, m), []*Term{recv}, s); err != nil {
			return nil, err
		}
	}
	am := p.namedType(pModule, "AppModule")
	if am == nil {
		return nil, fmt.Errorf("module.AppModule not found")
	}
	for _, x := range [][2]string{{"BeginBlock", "begin"}, {"EndBlock", "end"}, {"InitGenesis", "genesis"}, {"ExportGenesis", "export"}} {
		fn := w.method(am, x[0])
		if fn == nil {
			return nil, fmt.Errorf("AppModule.%s not found", x[0])
		}
		if err := w.add(x[0], x[1], fn, nil, nil); err != nil {
			return nil, err
		}
	}
	for _, x := range invariantNames {
		if p.fn(pModel, "", "Invariant") == nil {
			break
		}
		if err := w.add("Invariant "+x, "invariant", p.fn(pModel, "", "Invariant"), []*Term{constStr(x)}, nil); err != nil {
			return nil, err
		}
	}
	return w, w.queries()
}

// queries adds the methods of the query service.
func (w *World) queries() error {
	kt := w.P.namedType(pKeep, "Keeper")
	qs, _ := w.P.SSA[pTypes].Pkg.Scope().Lookup("QueryServer").Type().Underlying().(*types.Interface)
	if kt == nil || qs == nil {
		return fmt.Errorf("keeper.Keeper or types.QueryServer not found")
	}
	for i := 0; i < qs.NumMethods(); i++ {
		n := qs.Method(i).Name()
		if err := w.add("Query"+n, "query", w.method(kt, n), nil, nil); err != nil {
			return err
		}
	}
	return nil
}

// prefixes resolves the store-key prefixes from the package's globals.
func (w *World) prefixes() error {
	w.Pfx = map[string]int64{}
	for _, n := range []string{"LastPairIdKey", "LastPoolIdKey", "PairKeyPrefix", "PairIndexKeyPrefix", "PairsByDenomsIndexKeyPrefix", "PoolKeyPrefix",
		"PoolByReserveAddressIndexKeyPrefix", "PoolsByPairIndexKeyPrefix", "DepositRequestKeyPrefix", "DepositRequestIndexKeyPrefix",
		"WithdrawRequestKeyPrefix", "WithdrawRequestIndexKeyPrefix", "OrderKeyPrefix", "OrderIndexKeyPrefix", "NumMMOrdersKeyPrefix"} {
		g := w.P.globals[mk("global", pTypes+"."+n, nil)]
		if g == nil || g.Op != "list" || len(g.Args) != 1 {
			return fmt.Errorf("store prefix types.%s is not a constant single byte", n)
		}
		v, ok := g.Args[0].intVal()
		if !ok {
			return fmt.Errorf("store prefix types.%s is not constant", n)
		}
		w.Pfx[strings.TrimSuffix(strings.TrimSuffix(n, "Prefix"), "Key")] = v.Int64()
	}
	for t, fs := range map[string][]string{"Pair": {"Id"}, "Pool": {"Id"}, "DepositRequest": {"PoolId", "Id"}, "WithdrawRequest": {"PoolId", "Id"}, "Order": {"PairId", "Id"}} {
		counterKeys[w.Pfx["LastPairId"]], counterKeys[w.Pfx["LastPoolId"]] = true, true
		recordKeys[pTypes+"."+t] = recordKey{w.Pfx[t], fs}
	}
	return nil
}

// Units lists every complete path of the successful outcomes of e.
func (w *World) Units(e *Entry) []*Unit {
	if us, ok := w.units[e]; ok {
		return us
	}
	var us []*Unit
	seen := map[string]bool{}
	var visit func(u *Unit)
	visit = func(u *Unit) {
		fuse(u)
		us = append(us, u)
		for _, ev := range u.Events {
			if ev.Kind != "loop" {
				continue
			}
			for _, b := range ev.Bodies {
				k := fmt.Sprintf("%s|%x|%s", ev.Loop, b.hash, factKey(b.Facts))
				if seen[k] || dangling(b.Facts) {
					continue
				}
				seen[k] = true
				visit(&Unit{Entry: e, Parent: u, Loop: ev, Events: b.Events, Facts: b.Facts})
			}
		}
	}
	for _, o := range e.Outs {
		if !o.Success() || dangling(o.Facts()) {
			continue
		}
		visit(&Unit{Entry: e, Events: o.Events(), Facts: o.Facts(), Out: o})
	}
	w.units[e] = us
	return us
}

func factKey(f *Facts) string {
	ids := make([]int, 0, len(f.m))
	for a, v := range f.m {
		x := a.ID * 2
		if v {
			x++
		}
		ids = append(ids, x)
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

// AllUnits lists the units of every entry of the given kinds (all if none).
func (w *World) AllUnits(kinds ...string) []*Unit {
	var us []*Unit
	for _, e := range w.Entries {
		if len(kinds) > 0 {
			ok := false
			for _, k := range kinds {
				if k == e.Kind || k == e.Name {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		us = append(us, w.Units(e)...)
	}
	return us
}

// ---- term helpers for rules --------------------------------------------------

func fieldIdx(t types.Type, name string) int {
	st := structOf(t)
	if st == nil {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// F projects a named field out of a struct-valued term.
func F(t *Term, names ...string) *Term {
	for _, n := range names {
		if t == nil || t.Typ == nil {
			return nil
		}
		i := fieldIdx(t.Typ, n)
		if i < 0 {
			return nil
		}
		st := structOf(t.Typ)
		ft := st.Field(i).Type()
		t = mkField(t, t.Typ, i)
		if t.Typ == nil && !t.isConst() {
			t.Typ = ft
		}
	}
	return t
}

// recVal returns the record written by a store write of the given type.
func recVal(e *Event, typ string) *Term {
	if e.Kind != "kvset" || len(e.Args) < 2 || e.Args[1].Op != "enc" {
		return nil
	}
	v := e.Args[1].Args[0]
	if typeName(v.Typ) == pTypes+"."+typ {
		return v
	}
	return nil
}

// baseOf returns the previously stored record an updated record was derived
// from, or nil if the record is new.
func baseOf(v *Term) *Term {
	if v.Op != "struct" {
		if v.Op == "dec" {
			return v
		}
		return nil
	}
	count := map[*Term]int{}
	names := structFieldNames(v.Typ)
	for i, a := range v.Args {
		if a.Op == "field" && i < len(names) && a.Name == names[i] && a.Args[0].Typ != nil && typeName(a.Args[0].Typ) == typeName(v.Typ) {
			count[a.Args[0]]++
		}
	}
	var best *Term
	for b, n := range count {
		if best == nil || n > count[best] {
			best = b
		}
	}
	if best != nil && count[best] >= 2 {
		return best
	}
	return nil
}

// refFields are the references between stored records. That they never
// dangle is established separately (property P22: referenced records exist
// when the reference is stored and are never deleted).
var refFields = map[string][][2]string{
	"Pool":            {{"PairId", "Pair"}},
	"Order":           {{"PairId", "Pair"}},
	"DepositRequest":  {{"PoolId", "Pool"}},
	"WithdrawRequest": {{"PoolId", "Pool"}},
}

// counterKeys are the prefixes of the keys of the last ids, which are no
// index entries.
var counterKeys = map[int64]bool{}

// indexed: the id was read from an index entry (its key or its value); index
// entries and records agree (property P24).
func indexed(id *Term, pfx int64) bool {
	if pfx != recordKeys[pTypes+".Pair"].prefix && pfx != recordKeys[pTypes+".Pool"].prefix {
		return false
	}
	if id.contains(func(t *Term) bool { return t.Op == "iterkey" }) {
		return true
	}
	if id.Op == "field" && id.Name == "Value" && id.Args[0].Op == "dec" && hasSuffix(id.Args[0].Name, "types.UInt64Value") && id.Args[0].Args[0].Op == "kvget" {
		p := constPrefix(id.Args[0].Args[0].Args[0])
		return len(p) > 0 && !counterKeys[p[0]]
	}
	return false
}

// dangling: the path assumes that a stored record refers to a missing one.
func dangling(f *Facts) bool {
	for a, v := range f.m {
		// a length below n that is none of 0 .. n-1
		if a.Op == "lt" && v && a.Args[0].Op == "len" {
			if n, ok := a.Args[1].intVal(); ok && n.IsInt64() && n.Int64() <= 8 {
				none := true
				for i := int64(0); i < n.Int64(); i++ {
					none = none && f.has(neL(a.Args[0], ci(int(i))))
				}
				if none {
					return true
				}
			}
		}
		if a.Op != "isnil" || !v || a.Args[0].Op != "kvget" {
			continue
		}
		k := a.Args[0].Args[0]
		if k.Op != "cat" || len(k.Args) != 2 || k.Args[1].Op != "u64be" {
			continue
		}
		p := constPrefix(k)
		id := k.Args[1].Args[0]
		if len(p) == 0 {
			continue
		}
		if indexed(id, p[0]) {
			return true
		}
		// the id is the reference component of the key of a record that exists
		for b, bv := range f.m {
			if b.Op != "isnil" || bv || b.Args[0].Op != "kvget" || b.Args[0].Args[0].Op != "cat" {
				continue
			}
			bk := b.Args[0].Args[0]
			for rec, rfs := range refFields {
				rk := recordKeys[pTypes+"."+rec]
				bp := constPrefix(bk)
				if len(bp) == 0 || bp[0] != rk.prefix || len(bk.Args) != len(rk.fields)+1 {
					continue
				}
				for _, rf := range rfs {
					for i, fld := range rk.fields {
						if fld == rf[0] && bk.Args[i+1] == k.Args[1] && recordKeys[pTypes+"."+rf[1]].prefix == p[0] {
							return true
						}
					}
				}
			}
		}
		if id.Op != "field" || id.Args[0].Op != "dec" {
			continue
		}
		rec := strings.TrimPrefix(id.Args[0].Name, pTypes+".")
		for _, rf := range refFields[rec] {
			if rf[0] == id.Name {
				if rk, ok := recordKeys[pTypes+"."+rf[1]]; ok && rk.prefix == p[0] {
					return true
				}
			}
		}
	}
	return false
}
