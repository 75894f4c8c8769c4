package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pSDK   = "github.com/cosmos/cosmos-sdk/types"
	pMath  = "cosmossdk.io/math"
	pStore = "cosmossdk.io/store/types"
	pTypes = "defund/x/dex/types"
	pAmm   = "defund/x/dex/amm"
	pKeep  = "defund/x/dex/keeper"
)

func ret1(s *State, vs ...*Term) []*Outcome {
	return []*Outcome{{St: s, Kind: "ret", Vals: vs}}
}

func sigResults(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func isErrType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// call dispatches a call from state s.
func (c *fctx) call(s *State, cc *ssa.CallCommon, fnT *Term, args []*Term, ins ssa.Instruction, id string) []*Outcome {
	c.in.Calls++
	if cc.IsInvoke() {
		return c.invoke(s, cc, fnT, args, ins, id)
	}
	switch fnT.Op {
	case "builtin":
		return c.builtin(s, fnT.Name, cc, args, ins, id)
	case "func":
		fn := c.in.P.funcs[fnT]
		return c.callFn(s, fn, nil, args, ins, id)
	case "closure":
		fn := c.in.P.closures[fnT]
		return c.callFn(s, fn, fnT.Args, args, ins, id)
	}
	// unknown function value
	return c.opaque(s, "dyn", "dyncall", cc.Signature(), append([]*Term{fnT}, args...), ins, id, false)
}

func hasRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (c *fctx) recovering(s *State) bool {
	for _, d := range s.fr.defers {
		if d.fn == nil {
			continue
		}
		switch d.fn.Op {
		case "closure":
			if f := c.in.P.closures[d.fn]; f != nil && hasRecover(f) {
				return true
			}
		case "func":
			if f := c.in.P.funcs[d.fn]; f != nil && hasRecover(f) {
				return true
			}
		}
	}
	return false
}

func (c *fctx) callFn(s *State, fn *ssa.Function, bindings, args []*Term, ins ssa.Instruction, id string) []*Outcome {
	name := c.in.P.funcName(fn)
	if si := standIns[name]; si != "" {
		fn = c.in.P.fn(pModel, "", si)
		name = c.in.P.funcName(fn)
	}
	if outs, ok := c.model(s, name, fn.Signature, args, ins, id); ok {
		return outs
	}
	inline := len(fn.Blocks) > 0 && c.in.P.inRepoFn(fn)
	depth := 0
	for _, f := range c.in.stack {
		if f == fn {
			depth++
		}
	}
	if depth > 0 || len(c.in.stack) > 40 {
		inline = false
	}
	pol := Inline
	if inline && c.in.Policy != nil {
		pol = c.in.Policy(fn)
		if pol != Inline {
			inline = false
		}
	}
	if inline {
		var exc *State
		if c.recovering(s) {
			exc = s.clone()
		}
		fr := s.fr
		outs := c.in.execFunc(fn, args, bindings, s, id)
		for _, o := range outs {
			o.St.fr = fr
		}
		if exc != nil {
			// an implicit panic (e.g. arithmetic overflow) may occur anywhere inside
			for k, v := range exc.mem {
				for _, o := range outs {
					if o.St.mem[k] != v {
						exc.mem[k] = mk("havoc", id+":"+strconv.Itoa(k.ID), cellType(k, v))
						break
					}
				}
			}
			outs = append(outs, &Outcome{St: exc, Kind: "panic", Vals: []*Term{mk("nonnil", id+":implicit", nil)}, Pos: ins.Pos()})
		}
		return outs
	}
	pure := pol == OpaquePure
	if pol == OpaqueEvent {
		pure = false
	}
	if !c.in.P.inRepoFn(fn) {
		pure = purePkg(fn)
	}
	return c.opaque(s, "call", name, fn.Signature, args, ins, id, pure)
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "fmt": true, "errors": true, "bytes": true, "time": true, "math": true, "math/bits": true,
	"encoding/hex": true, "encoding/binary": true, "unicode": true, "sort": false, "regexp": true,
	pMath: true, pSDK: true, "cosmossdk.io/errors": true, "google.golang.org/grpc/status": true, "google.golang.org/grpc/codes": true,
	"github.com/cosmos/cosmos-sdk/types/address": true, "github.com/cometbft/cometbft/crypto": true,
	"github.com/cosmos/cosmos-sdk/x/bank/types": true, "github.com/cosmos/cosmos-sdk/x/auth/types": true,
	"github.com/cosmos/cosmos-sdk/runtime": true, pStore: true, "cosmossdk.io/store/prefix": true, "cosmossdk.io/core/address": true,
	"github.com/cosmos/cosmos-sdk/types/errors": true, "math/big": false, "crypto/sha256": true,
	"github.com/cosmos/cosmos-sdk/x/params/types": true, "github.com/cosmos/cosmos-sdk/x/gov/types": true,
	"golang.org/x/exp/constraints": true,
}

func purePkg(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return purePkgs[fn.Object().Pkg().Path()]
		}
		return false
	}
	return purePkgs[fn.Pkg.Pkg.Path()]
}

// opaque models a call whose body is not analysed.
func (c *fctx) opaque(s *State, kind, name string, sig *types.Signature, args []*Term, ins ssa.Instruction, id string, pure bool) []*Outcome {
	rts := sigResults(sig)
	var vs []*Term
	var ct *Term
	if pure {
		if v := orderReads[name]; v != "" {
			if set, ver := s.fillState(name, v, args); set != nil {
				return ret1(s, set)
			} else {
				name += ver
			}
		}
		ct = mk("call", name, nil, args...)
	} else {
		var snap []*Term
		for _, a := range args {
			snap = append(snap, c.snapshot(s, a, 6))
		}
		ct = mk("call", name+"@"+id, nil, args...)
		ver := ""
		if strings.HasPrefix(name, pAmm+".") {
			_, ver = s.fillState("", "", nil)
		}
		s.ev = push(s.ev, &Event{Kind: kind, Name: name, Args: args, Snap: snap, Facts: s.facts, Pos: ins.Pos(), Path: c.path, Res: ct, Ver: ver, Err: errOf(ct, rts)})
		for _, a := range args {
			c.havocPtr(s, a, id)
		}
	}
	for i, rt := range rts {
		if len(rts) == 1 {
			if ct.Typ == nil {
				ct.Typ = rt
			}
			vs = append(vs, ct)
		} else {
			vs = append(vs, mk("res", strconv.Itoa(i), rt, ct))
		}
	}
	return ret1(s, vs...)
}

// errOf is the error among the results of an opaque call.
func errOf(ct *Term, rts []types.Type) *Term {
	for i, t := range rts {
		if !isErrorType(t) {
			continue
		}
		if len(rts) == 1 {
			return ct
		}
		return mk("res", strconv.Itoa(i), t, ct)
	}
	return nil
}

// orderReads: reads of what filling an order changes, and the setter of the
// field read.
var orderReads = map[string]string{
	pAmm + ".Order.GetOpenAmount":               "SetOpenAmount",
	pAmm + ".Order.GetPaidOfferCoinAmount":      "SetPaidOfferCoinAmount",
	pAmm + ".Order.GetReceivedDemandCoinAmount": "SetReceivedDemandCoinAmount",
	pAmm + ".Order.IsMatched":                   "-",
	pAmm + ".MatchableAmount":                   "-",
	pAmm + ".TotalMatchableAmount":              "-",
	"(*" + pAmm + ".BaseOrder).IsMatched":       "-",
}

func fillEvent(ev *Event) bool {
	switch ev.Kind {
	case "invoke":
		return strings.HasPrefix(ev.Name, pAmm+".Order.Set")
	case "call":
		n := strings.TrimPrefix(ev.Name, pAmm+".")
		if strings.HasPrefix(ev.Name, "(*"+pAmm+".OrderBook).Match") {
			return true
		}
		return n != ev.Name && (strings.HasPrefix(n, "Fill") || strings.HasPrefix(n, "Fulfill") || strings.HasPrefix(n, "Distribute"))
	case "loop":
		for _, b := range ev.Bodies {
			for _, e := range b.Events {
				if fillEvent(e) {
					return true
				}
			}
		}
	}
	return false
}

// fillState: what a read of an order sees. Reads after a fill are told apart
// from reads before it; a field that was just set reads as set.
func (s *State) fillState(name, setter string, args []*Term) (*Term, string) {
	for n := s.ev; n != nil; n = n.prev {
		ev := n.ev
		if !fillEvent(ev) {
			continue
		}
		if ev.Kind == "invoke" && len(args) == 1 && ev.Args[0] == args[0] && setter != "" && setter != "-" {
			if strings.HasSuffix(ev.Name, "."+setter) {
				return ev.Args[1], ""
			}
			continue
		}
		if ev.Kind == "loop" {
			return nil, "~" + ev.Loop
		}
		return nil, "~" + ev.Path + ":" + strconv.Itoa(int(ev.Pos))
	}
	return nil, ""
}

// snapshot is a value with the objects it points to written out ("ref").
func (c *fctx) snapshot(s *State, t *Term, d int) *Term {
	if t == nil || d == 0 {
		return t
	}
	switch t.Op {
	case "alloc":
		if v, ok := s.mem[t]; ok && v != nil {
			var et types.Type
			if t.Typ != nil {
				if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
					et = p.Elem()
				}
			}
			return mk("ref", "", et, c.snapshot(s, v, d-1))
		}
		return t
	case "iface", "list", "struct", "slice", "append", "enc":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = c.snapshot(s, a, d-1)
		}
		return mk(t.Op, t.Name, t.Typ, args...)
	case "mkslice", "sliceof":
		if r := c.resolveSlice(s, t); r != t {
			return c.snapshot(s, r, d-1)
		}
	}
	return t
}

func (c *fctx) havocPtr(s *State, a *Term, id string) {
	a = stripConv(a)
	switch a.Op {
	case "mkmap":
		s.havocMap(a, id)
	case "alloc":
		if _, ok := s.mem[a]; ok {
			s.mem[a] = mk("havoc", id, cellType(a, s.mem[a]))
			if s.mem[a].Typ == nil {
				if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
					s.mem[a].Typ = p.Elem()
				}
			}
		}
	case "faddr":
		root, _ := splitAddr(a)
		_ = root
		c.store(s, a, mk("havoc", id, nil))
	case "closure":
		for _, b := range a.Args {
			if b.Op == "alloc" {
				c.havocPtr(s, b, id+":"+strconv.Itoa(b.ID))
			}
		}
	}
}

func (c *fctx) builtin(s *State, name string, cc *ssa.CallCommon, args []*Term, ins ssa.Instruction, id string) []*Outcome {
	switch name {
	case "append":
		var typ types.Type = cc.Args[0].Type()
		isBytes := false
		if sl, ok := typ.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8) {
				isBytes = true
			}
		}
		if len(args) < 2 {
			return ret1(s, args[0])
		}
		if isBytes {
			return ret1(s, mkCat(c.resolveSlice(s, args[0]), c.resolveSlice(s, args[1])))
		}
		a, b := c.resolveSlice(s, args[0]), c.resolveSlice(s, args[1])
		return ret1(s, mkAppend(a, b, typ))
	case "len":
		return ret1(s, mkLen(c.resolveSlice(s, args[0])))
	case "cap":
		return ret1(s, mk("cap", "", types.Typ[types.Int], args[0]))
	case "copy":
		if args[0].Op == "mkslice" || args[0].Op == "sliceof" {
			s.mem[mk("copied", "", nil, args[0])] = args[1]
		}
		s.shift(args[0], args[1])
		return ret1(s, mk("call", "copy", types.Typ[types.Int], args...))
	case "delete":
		s.ev = push(s.ev, &Event{Kind: "mapdel", Args: args, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		s.havocMap(args[0], s.mapVer(args[0])+"-"+strconv.Itoa(args[1].ID))
		return ret1(s)
	case "recover":
		if s.panicVal != nil && s.inDefer {
			v := s.panicVal
			s.panicVal = nil
			if v.Op != "iface" && nilness(v) != -1 {
				v = mk("nonnil", id, nil, v)
			}
			return ret1(s, v)
		}
		return ret1(s, nilTerm)
	case "min", "max":
		return ret1(s, mkMinMax(name, args, cc.Args[0].Type()))
	case "print", "println":
		return ret1(s)
	case "ssa:wrapnilchk":
		return ret1(s, args[0])
	}
	return ret1(s, mk("call", name, nil, args...))
}

func mkMinMax(op string, args []*Term, typ types.Type) *Term {
	if len(args) == 2 {
		if args[0] == args[1] {
			return args[0]
		}
		va, oka := args[0].intVal()
		vb, okb := args[1].intVal()
		if oka && okb {
			if (va.Cmp(vb) < 0) == (op == "min") {
				return args[0]
			}
			return args[1]
		}
		args = sort2(args[0], args[1])
	}
	return mk(op, "", typ, args...)
}

// resolveSlice snapshots a slice over a local array into a list.
func (c *fctx) resolveSlice(s *State, t *Term) *Term {
	if t.Op != "sliceof" {
		return t
	}
	base := t.Args[0]
	if base.Op != "alloc" || base.Typ == nil {
		return t
	}
	pt, ok := base.Typ.Underlying().(*types.Pointer)
	if !ok {
		return t
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 256 {
		return t
	}
	var es []*Term
	for i := int64(0); i < at.Len(); i++ {
		es = append(es, c.load(s, mkIaddr(base, constInt(i), types.NewPointer(at.Elem())), at.Elem()))
	}
	return mk("list", "", t.Typ, es...)
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case "nil":
		return constInt(0)
	case "list":
		return constInt(int64(len(t.Args)))
	case "str":
		return constInt(int64(len(t.Name)))
	case "mkslice":
		return t.Args[0]
	case "bytesof":
		return mkLen(t.Args[0])
	case "strof":
		return mkLen(t.Args[0])
	case "conv":
		return mkLen(t.Args[0])
	case "append":
		if n := len(t.Args) - 1; n >= 1 && !(t.Name == "all") {
			return linAdd(mkLen(t.Args[0]), constInt(int64(n)), 1, types.Typ[types.Int])
		}
	}
	return mk("len", "", types.Typ[types.Int], t)
}

func mkAppend(a, b *Term, typ types.Type) *Term {
	if a.Op == "nil" {
		a = mk("list", "", typ)
	}
	if b.Op == "nil" || b.Op == "list" && len(b.Args) == 0 {
		return a
	}
	if b.Op == "list" {
		if a.Op == "list" {
			return mk("list", "", typ, append(append([]*Term(nil), a.Args...), b.Args...)...)
		}
		if a.Op == "append" && a.Name == "" {
			return mk("append", "", typ, append(append([]*Term(nil), a.Args...), b.Args...)...)
		}
		return mk("append", "", typ, append([]*Term{a}, b.Args...)...)
	}
	if a.Op == "list" && len(a.Args) == 0 {
		return mk("copyof", "", typ, b)
	}
	return mk("append", "all", typ, a, b)
}

// mkCat concatenates byte strings.
func mkCat(xs ...*Term) *Term {
	var parts []*Term
	add := func(p *Term) {
		if p.Op == "byte" && len(parts) > 0 && false {
			return
		}
		parts = append(parts, p)
	}
	var flat func(t *Term)
	flat = func(t *Term) {
		switch t.Op {
		case "nil":
		case "cat":
			for _, a := range t.Args {
				flat(a)
			}
		case "list":
			for _, a := range t.Args {
				add(mk("byte", "", nil, a))
			}
		case "copyof":
			flat(t.Args[0])
		default:
			if isStr(t) {
				t = mk("bytesof", "", nil, t)
			}
			add(t)
		}
	}
	for _, x := range xs {
		flat(x)
	}
	if n := len(parts); n > 1 && parts[n-1].Op == "iterrest" { // the key of an entry, found under the prefix of its iterator
		it := parts[n-1].Args[0]
		if mkCat(parts[:n-1]...) == it.Args[0] {
			return mk("iterkey", "", nil, it)
		}
	}
	if len(parts) == 1 && parts[0].Op != "byte" {
		return parts[0]
	}
	return mk("cat", "", nil, parts...)
}

func recvTypeOf(sig *types.Signature) types.Type {
	if sig.Recv() == nil {
		return nil
	}
	return sig.Recv().Type()
}

// invoke handles interface method calls.
func (c *fctx) invoke(s *State, cc *ssa.CallCommon, recv *Term, args []*Term, ins ssa.Instruction, id string) []*Outcome {
	m := cc.Method
	it := cc.Value.Type()
	full := typeName(it) + "." + m.Name()
	r := stripConv(recv)
	all := append([]*Term{r}, args...)
	if outs, ok := c.model(s, full, cc.Signature(), all, ins, id); ok {
		return outs
	}
	// known dynamic type
	if recv.Op == "iface" && recv.Typ != nil {
		if fn := c.in.P.Prog.LookupMethod(recv.Typ, m.Pkg(), m.Name()); fn != nil {
			return c.callFn(s, fn, nil, all, ins, id)
		}
	}
	// dynamic type established by a dominating type test
	for k, v := range s.facts.m {
		if v && k.Op == "typeis" && k.Args[0] == recv {
			if t := c.in.P.typeByName(k.Name); t != nil {
				if fn := c.in.P.Prog.LookupMethod(t, m.Pkg(), m.Name()); fn != nil {
					return c.callFn(s, fn, nil, append([]*Term{mk("as", k.Name, t, recv)}, args...), ins, id)
				}
			}
		}
	}
	pure := c.in.P.pureInvoke[full] || strings.HasPrefix(m.Name(), "Get") || strings.HasPrefix(m.Name(), "Is") || m.Name() == "String" || m.Name() == "Error"
	return c.opaque(s, "invoke", full, cc.Signature(), all, ins, id, pure)
}

func posOf(i ssa.Instruction) token.Pos { return i.Pos() }

// ---- key-value store -------------------------------------------------------

func fullKey(s *State, store, key *Term) *Term {
	if key.Op == "sliceof" {
		key = mk("slc", "", nil, key)
	}
	key = withoutEmpty(s.facts, key)
	if p := pstorePrefix(store); p != nil {
		return mkCat(p, key)
	}
	return mkCat(key)
}

// withoutEmpty drops the parts of a key that are known to be empty strings.
func withoutEmpty(f *Facts, key *Term) *Term {
	if key.Op != "cat" {
		return key
	}
	var parts []*Term
	for _, a := range key.Args {
		if a.Op != "bytesof" || !f.has(eqL(mkLen(a.Args[0]), ci(0))) {
			parts = append(parts, a)
		}
	}
	if len(parts) == len(key.Args) {
		return key
	}
	return mk("cat", "", nil, parts...)
}

func pstorePrefix(st *Term) *Term {
	if st.Op == "pstore" {
		if up := pstorePrefix(st.Args[0]); up != nil {
			return mkCat(up, st.Args[1])
		}
		return st.Args[1]
	}
	return nil
}

// constPrefix returns the leading constant bytes of a key term.
func constPrefix(k *Term) []int64 {
	var r []int64
	if k.Op != "cat" {
		return nil
	}
	for _, a := range k.Args {
		if a.Op != "byte" {
			break
		}
		v, ok := a.Args[0].intVal()
		if !ok {
			break
		}
		r = append(r, v.Int64())
	}
	return r
}

func mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	pa, pb := constPrefix(a), constPrefix(b)
	for i := 0; i < len(pa) && i < len(pb); i++ {
		if pa[i] != pb[i] {
			return false
		}
	}
	if a.Op == "cat" && b.Op == "cat" && len(pa) == 1 && len(pb) == 1 && len(a.Args) == len(b.Args) {
		// same shape: provably different when a fixed-width part differs by a constant
		for i := range a.Args {
			x, y := a.Args[i], b.Args[i]
			if x.Op == "u64be" && y.Op == "u64be" {
				if at, pol := mkEq(x.Args[0], y.Args[0]); at.Op == "bool" && (at.Name == "true") != pol {
					return false
				}
			}
		}
	}
	return true
}

func kvGet(s *State, key *Term) *Term {
	ver := ""
	for n := s.kv; n != nil; n = n.prev {
		if n.key != nil {
			if n.key == key {
				if n.val == nil {
					return nilTerm
				}
				return n.val
			}
			if mayAlias(n.key, key) {
				ver = n.tag
				break
			}
			continue
		}
		hit := false
		for _, p := range n.pfx {
			if mayAlias(p, key) {
				hit = true
			}
		}
		if hit {
			ver = n.tag
			break
		}
	}
	return mk("kvget", ver, types.NewSlice(types.Typ[types.Byte]), key)
}

// ---- models ------------------------------------------------------------------

func methodKey(full string) (typ, meth string) {
	i := strings.LastIndex(full, ".")
	return full[:i], full[i+1:]
}

// mkCoins is the set of coins built by sdk.NewCoins; the order of a literal
// argument list is irrelevant.
func mkCoins(l *Term, rt types.Type) *Term {
	if l.Op == "list" {
		as := append([]*Term(nil), l.Args...)
		sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
		return mk("coins", "", rt, as...)
	}
	if l.Op == "nil" {
		return mk("coins", "", rt)
	}
	return mk("call", pSDK+".NewCoins", rt, l)
}

var mathInt = "(" + pMath + ".Int)"
var mathDec = "(" + pMath + ".LegacyDec)"
var sdkCoin = "(" + pSDK + ".Coin)"
var sdkCoins = "(" + pSDK + ".Coins)"

func (c *fctx) model(s *State, name string, sig *types.Signature, args []*Term, ins ssa.Instruction, id string) ([]*Outcome, bool) {
	rts := sigResults(sig)
	var rt types.Type
	if len(rts) > 0 {
		rt = rts[0]
	}
	B := types.Typ[types.Bool]
	_ = B
	one := func(t *Term) ([]*Outcome, bool) {
		if t.Typ == nil && rt != nil && !t.isConst() {
			t.Typ = rt
		}
		return ret1(s, t), true
	}
	lit := func(a *Term, p bool) ([]*Outcome, bool) { return one(litTerm(a, p)) }
	typ, meth := methodKey(name)
	switch typ {
	case mathInt, mathDec:
		x := args[0]
		integer := false
		switch meth {
		case "IsNil", "String", "Marshal", "Size", "MarshalTo", "BigInt", "BigIntMut":
		default: // arithmetic on the zero value dereferences a nil pointer
			for _, a := range args {
				if a.Op == "zero" && !(meth == "Equal" && args[0] == args[1]) {
					return []*Outcome{{St: s, Kind: "panic", Vals: []*Term{mk("str", "nil dereference in "+name, nil)}}}, true
				}
			}
		}
		switch meth {
		case "IsNil":
			switch {
			case x.Op == "zero":
				return one(constBool(true))
			case x.Op == "int", x.Op == "lin", x.Op == "todec", x.Op == "call" && (strings.HasPrefix(x.Name, mathInt+".") || strings.HasPrefix(x.Name, mathDec+".")):
				return one(constBool(false))
			}
		case "Add", "AddRaw":
			return one(linAdd(x, args[1], 1, rt))
		case "Sub", "SubRaw":
			return one(linAdd(x, args[1], -1, rt))
		case "Neg":
			return one(linNeg(x, rt))
		case "GT":
			return lit(mkLt(args[1], x, integer))
		case "LT":
			return lit(mkLt(x, args[1], integer))
		case "GTE":
			a, p := mkLt(x, args[1], integer)
			return lit(a, !p)
		case "LTE":
			a, p := mkLt(args[1], x, integer)
			return lit(a, !p)
		case "Equal":
			return lit(mkEq(x, args[1]))
		case "IsZero":
			return lit(mkEq(x, constInt(0)))
		case "IsPositive":
			return lit(mkLt(constInt(0), x, integer))
		case "IsNegative":
			return lit(mkLt(x, constInt(0), integer))
		case "Mul", "MulInt64", "MulRaw":
			if meth == "Mul" {
				if typ == mathInt {
					return one(mk("call", name, rt, sort2(x, args[1])...))
				}
				if v, ok := x.intVal(); ok && v.IsInt64() && v.Int64() == 1 {
					return one(args[1])
				}
				if v, ok := args[1].intVal(); ok && v.IsInt64() && v.Int64() == 1 {
					return one(x)
				}
				return one(mk("call", name, rt, sort2(x, args[1])...))
			}
		case "Sign":
			return one(mk("compare", "", rt, x, ci(0)))
		case "ToLegacyDec":
			return one(mkToDec(x, rt))
		case "BigInt", "BigIntMut":
			v := x
			if typ == mathDec {
				v = rawOf(x)
			}
			return one(c.bigNew(s, v, id, rt))
		}
		if typ == mathDec && meth == "MulInt" {
			return one(mk("call", mathDec+".MulInt", rt, x, args[1]))
		}
		return one(mk("call", name, rt, args...))
	case "(*math/big.Int)":
		return c.modelBig(s, name, meth, sig, args, ins, id)
	case "(*" + pMath + ".Int)", "(*" + pMath + ".LegacyDec)":
		return nil, false
	case sdkCoin:
		x := args[0]
		ct := sig.Recv().Type()
		den, amt := mkField(x, ct, 0), mkField(x, ct, 1)
		fld := func(t *Term, i int) *Term { return mkField(t, ct, i) }
		switch meth {
		case "IsLT", "IsGTE", "IsLTE", "IsZero", "IsPositive", "IsNegative", "Add", "Sub", "AddAmount", "SubAmount":
			if amt.Op == "zero" {
				return []*Outcome{{St: s, Kind: "panic", Vals: []*Term{mk("str", "nil dereference in "+name, nil)}}}, true
			}
		}
		switch meth {
		case "IsLT":
			return lit(mkLt(amt, fld(args[1], 1), false))
		case "IsGTE":
			a, p := mkLt(amt, fld(args[1], 1), false)
			return lit(a, !p)
		case "IsLTE":
			a, p := mkLt(fld(args[1], 1), amt, false)
			return lit(a, !p)
		case "IsZero":
			return lit(mkEq(amt, constInt(0)))
		case "IsPositive":
			return lit(mkLt(constInt(0), amt, false))
		case "IsNegative":
			return lit(mkLt(amt, constInt(0), false))
		case "Add":
			return one(mkStruct(ct, []*Term{den, linAdd(amt, fld(args[1], 1), 1, nil)}))
		case "Sub":
			return one(mkStruct(ct, []*Term{den, linAdd(amt, fld(args[1], 1), -1, nil)}))
		case "AddAmount":
			return one(mkStruct(ct, []*Term{den, linAdd(amt, args[1], 1, nil)}))
		case "SubAmount":
			return one(mkStruct(ct, []*Term{den, linAdd(amt, args[1], -1, nil)}))
		case "GetDenom":
			return one(den)
		}
		return one(mk("call", name, rt, args...))
	case sdkCoins:
		switch meth {
		case "Sub", "Add", "SafeSub", "AmountOf", "IsZero", "Empty", "IsValid", "Validate", "String", "IsAllPositive", "Len":
			a := args
			if meth == "IsZero" || meth == "Empty" {
				if cs := args[0]; cs.Op == "coins" && len(cs.Args) == 1 {
					return lit(mkEq(mkField(cs.Args[0], sig.Recv().Type().Underlying().(*types.Slice).Elem(), 1), constInt(0)))
				}
				return one(mk("call", sdkCoins+".IsZero", rt, args[0]))
			}
			if meth == "Len" {
				return one(mkLen(args[0]))
			}
			if meth == "IsAllPositive" && canonicalCoins(args[0]) {
				return one(mk("not", "", rt, mk("call", sdkCoins+".IsZero", rt, args[0])))
			}
			if meth == "SafeSub" {
				ct := mk("call", name, nil, a...)
				return ret1(s, mk("res", "0", rts[0], ct), mk("res", "1", rts[1], ct)), true
			}
			if (meth == "Add" || meth == "Sub") && a[1].Op == "list" && len(a[1].Args) == 0 {
				return one(a[0])
			}
			return one(mk("call", name, rt, a...))
		}
	case "(" + pSDK + ".AccAddress)":
		switch meth {
		case "String":
			return one(mkAddrStr(args[0]))
		case "Equals":
			return lit(mkEq(stripConv(args[0]), stripConv(args[1])))
		case "Empty":
			return lit(mkEq(mkLen(args[0]), constInt(0)))
		case "Bytes":
			return one(args[0])
		}
	case "(time.Time)":
		switch meth {
		case "After":
			return lit(mkLt(args[1], args[0], false))
		case "Before":
			return lit(mkLt(args[0], args[1], false))
		case "Equal":
			return lit(mkEq(args[0], args[1]))
		case "Compare":
			return one(mk("compare", "", rt, args[0], args[1]))
		}
	case "(" + pSDK + ".Context)":
		switch meth {
		case "BlockTime", "BlockHeight", "GasMeter", "EventManager", "Logger", "ChainID", "BlockHeader", "BlockGasMeter":
			return one(mk("call", name, rt, args...))
		}
	case pSDK + ".EventManagerI", "(*" + pSDK + ".EventManager)":
		switch meth {
		case "EmitEvents", "EmitEvent", "EmitTypedEvent", "EmitTypedEvents":
			ev := args[1]
			if meth == "EmitEvent" {
				ev = mk("list", "", nil, ev)
			}
			s.ev = push(s.ev, &Event{Kind: "emit", Args: []*Term{ev}, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			if rt != nil {
				return one(mk("errres", id, rt))
			}
			return ret1(s), true
		}
	case pStore + ".GasMeter":
		if meth == "ConsumeGas" {
			s.ev = push(s.ev, &Event{Kind: "gas", Args: append(append([]*Term{}, args[1:]...), args[0]), Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			return ret1(s), true
		}
	case pModel + ".Reports":
		s.ev = push(s.ev, &Event{Kind: "report", Args: args[1:], Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		return ret1(s), true
	case pModel + ".Paging":
		switch meth {
		case "Taken":
			return one(mk("taken", "", rt, args[1:]...))
		case "Refuse":
			return one(mk("errres", "page", rt, args[1:]...))
		case "Page":
			return one(mk("page", "", rt, args[1:]...))
		case "Hit":
			s.ev = push(s.ev, &Event{Kind: "hit", Args: args[1:], Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			return ret1(s), true
		}
	case pTypes + ".BankKeeper":
		return c.modelBank(s, meth, rts, args, ins, id)
	case pTypes + ".AccountKeeper":
		return one(mk("call", name, rt, args[1:]...))
	case pStore + ".KVStore", pStore + ".BasicKVStore", "cosmossdk.io/core/store.KVStore", "(" + "cosmossdk.io/store/prefix.Store)":
		return c.modelKV(s, meth, rts, args, ins, id)
	case pStore + ".Iterator", "cosmossdk.io/core/store.Iterator", "github.com/cosmos/cosmos-db.Iterator":
		switch meth {
		case "Valid":
			return one(mk("itervalid", id, types.Typ[types.Bool], args[0]))
		case "Next":
			if c.in.IterEv {
				s.ev = push(s.ev, &Event{Kind: "iternext", Args: args, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			}
			return ret1(s), true
		case "Close":
			if c.in.IterEv {
				s.ev = push(s.ev, &Event{Kind: "iterclose", Args: args, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			}
			if rt != nil {
				return one(nilTerm)
			}
			return ret1(s), true
		case "Key":
			if strings.HasSuffix(args[0].Name, "sub") {
				return one(mk("iterrest", "", rt, args[0]))
			}
			return one(mk("iterkey", "", rt, args[0]))
		case "Value":
			return one(mk("iterval", "", rt, args[0]))
		case "Error":
			return one(nilTerm)
		}
	case "github.com/cosmos/cosmos-sdk/codec.BinaryCodec", "github.com/cosmos/cosmos-sdk/codec.Codec", "github.com/cosmos/cosmos-sdk/codec.ProtoCodecMarshaler":
		switch meth {
		case "MustMarshal", "Marshal", "MustMarshalJSON":
			p := stripConv(args[1])
			v := p
			if pt := ptrElem(p); pt != nil {
				v = c.load(s, p, pt)
			}
			e := mk("enc", "", types.NewSlice(types.Typ[types.Byte]), v)
			if len(rts) == 2 {
				return ret1(s, e, mk("errres", id, rts[1])), true
			}
			return one(e)
		case "MustUnmarshal", "Unmarshal":
			p := stripConv(args[2])
			pt := ptrElem(p)
			if args[1].Op == "enc" {
				c.store(s, p, args[1].Args[0])
			} else {
				c.store(s, p, mk("dec", typeNameOr(pt), pt, args[1]))
			}
			if len(rts) == 1 {
				return one(mk("errres", id, rts[0]))
			}
			return ret1(s), true
		}
	case "(github.com/cosmos/cosmos-sdk/x/params/types.Subspace)":
		switch meth {
		case "Get", "GetIfExists":
			p := stripConv(args[3])
			c.store(s, p, mk("pparam", "", ptrElem(p), args[2]))
			return ret1(s), true
		case "GetParamSet", "GetParamSetIfExists":
			p := stripConv(args[2])
			c.store(s, p, mk("pset", "", ptrElem(p)))
			return ret1(s), true
		case "SetParamSet":
			p := stripConv(args[2])
			v := p
			if pt := ptrElem(p); pt != nil {
				v = c.load(s, p, pt)
			}
			s.ev = push(s.ev, &Event{Kind: "pset", Args: []*Term{v}, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			return ret1(s), true
		case "Set":
			s.ev = push(s.ev, &Event{Kind: "psetone", Args: []*Term{args[2], stripConv(args[3])}, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
			return ret1(s), true
		case "HasKeyTable":
			return one(mk("call", name, rt, args...))
		case "WithKeyTable":
			return one(mk("call", name, rt, args...))
		}
	}
	switch name {
	case "(*" + pTypes + ".BulkSendCoinsOperation).QueueSendCoins":
		s.ev = push(s.ev, &Event{Kind: "queue", Args: []*Term{args[0], args[1], args[2], c.resolveSlice(s, args[3])}, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		return ret1(s), true
	case "(*" + pTypes + ".BulkSendCoinsOperation).Run":
		er := mk("errres", id, rt)
		s.ev = push(s.ev, &Event{Kind: "flush", Args: []*Term{args[0]}, Facts: s.facts, Pos: ins.Pos(), Path: c.path, Res: er, Err: er})
		s.bankVer = id
		return one(er)
	case "cosmossdk.io/core/store.KVStoreService.OpenKVStore":
		return one(mk("kvstore", "", rt))
	case pSDK + ".NewCoin":
		return one(mkStruct(rt, args))
	case pSDK + ".NewInt64Coin":
		return one(mkStruct(rt, args))
	case pSDK + ".NewCoins":
		return one(mkCoins(c.resolveSlice(s, args[0]), rt))
	case pSDK + ".AccAddressFromBech32":
		if args[0].Op == "addrstr" {
			return ret1(s, mkAddr(args[0]), nilTerm), true
		}
		return ret1(s, mkAddr(args[0]), mk("bech32err", "", rts[1], args[0])), true
	case pSDK + ".MustAccAddressFromBech32":
		return one(mkAddr(args[0]))
	case pSDK + ".UnwrapSDKContext", pSDK + ".WrapSDKContext":
		return one(stripConv(args[0]))
	case pSDK + ".Uint64ToBigEndian":
		return one(mk("u64be", "", rt, args[0]))
	case pSDK + ".BigEndianToUint64":
		if args[0].Op == "u64be" {
			return one(args[0].Args[0])
		}
		return one(mk("beu64", "", rt, args[0]))
	case "github.com/cosmos/cosmos-sdk/types/address.MustLengthPrefix":
		return one(mk("lenpfx", "", rt, args[0]))
	case pMath + ".ZeroInt", pMath + ".LegacyZeroDec":
		return one(constInt(0))
	case pMath + ".OneInt", pMath + ".LegacyOneDec":
		return one(constInt(1))
	case pMath + ".NewInt", pMath + ".LegacyNewDec", pMath + ".NewIntFromUint64":
		return one(args[0])
	case "math/big.NewInt":
		return one(c.bigNew(s, args[0], id, rt))
	case pMath + ".NewIntFromBigInt", pMath + ".NewIntFromBigIntMut":
		return one(c.bigGet(s, args[0]))
	case pMath + ".LegacyNewDecFromBigInt", pMath + ".LegacyNewDecFromBigIntWithPrec":
		v := c.bigGet(s, args[0])
		prec := constInt(0)
		if len(args) == 2 {
			prec = args[1]
		}
		if prec == constInt(18) && v.Op == "decraw" {
			return one(v.Args[0])
		}
		if prec == constInt(0) {
			return one(mkToDec(v, rt))
		}
		return one(mk("fromraw", "", rt, v, prec))
	case pMath + ".MaxInt", pMath + ".LegacyMaxDec":
		return one(mkMinMax("max", args, rt))
	case pMath + ".MinInt", pMath + ".LegacyMinDec", "defund/types.MinInt":
		return one(mkMinMax("min", args, rt))
	case pMath + ".LegacyNewDecFromInt":
		return one(mkToDec(args[0], rt))
	case "slices.Insert":
		none := mk("none", "", nil)
		vs := c.resolveSlice(s, args[2])
		return one(mkAppend(mk("slice", "", rt, args[0], none, args[1]), mkAppend(vs, mk("slice", "", rt, args[0], args[1], none), rt), rt))
	case "bytes.Join":
		l := c.resolveSlice(s, args[0])
		if sep := c.resolveSlice(s, args[1]); l.Op == "list" && (sep.Op == "nil" || sep.Op == "list" && len(sep.Args) == 0) {
			return one(mkCat(l.Args...))
		}
	case "bytes.Clone", "slices.Clone":
		return one(mkAppend(mk("list", "", rt), c.resolveSlice(s, args[0]), rt))
	case "(encoding/binary.bigEndian).AppendUint64":
		return one(mkCat(c.resolveSlice(s, args[1]), mk("u64be", "", nil, args[2])))
	case "bytes.Equal":
		return lit(mkEq(args[0], args[1]))
	case "cosmossdk.io/errors.Wrap", "cosmossdk.io/errors.Wrapf":
		return one(mk("wrap", "", rt, stripConv2(args[0]), args[1]))
	case "fmt.Errorf", "errors.New", "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf":
		if strings.HasPrefix(name, "google") {
			return one(mk("error", name+args[0].Name, rt, args...))
		}
		return one(mk("error", name, rt, args...))
	case "github.com/cosmos/cosmos-sdk/runtime.KVStoreAdapter":
		return one(mk("kvstore", "", rt))
	case pStore + ".KVStorePrefixIterator", pStore + ".KVStoreReversePrefixIterator":
		n := "fwd"
		if strings.Contains(name, "Reverse") {
			n = "rev"
		}
		if pstorePrefix(stripConv(args[0])) != nil {
			n += "sub"
		}
		it := mk("iter", n, rt, fullKey(s, stripConv(args[0]), c.resolveSlice(s, args[1])))
		s.ev = push(s.ev, &Event{Kind: "kviter", Args: []*Term{it.Args[0]}, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		return one(it)
	case "cosmossdk.io/store/prefix.NewStore":
		return one(mk("pstore", "", rt, stripConv(args[0]), c.resolveSlice(s, args[1])))
	case "sort.Search":
		if outs := c.search(s, args, rt, id); outs != nil {
			return outs, true
		}
		return nil, false
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
		s.ev = push(s.ev, &Event{Kind: "sort", Name: name, Args: args, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		return ret1(s), true
	}
	// trivial getters of external protobuf messages: GetX() == X
	if sig.Recv() != nil && strings.HasPrefix(meth, "Get") && sig.Params().Len() == 0 && len(rts) == 1 {
		t := sig.Recv().Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if st := structOf(p.Elem()); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == meth[3:] && types.Identical(st.Field(i).Type(), rts[0]) && isProtoMsg(p.Elem()) {
						return one(c.load(s, mkFaddr(args[0], p.Elem(), i, types.NewPointer(rts[0])), rts[0]))
					}
				}
			}
		}
	}
	return nil, false
}

func isProtoMsg(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	return ms.Lookup(nil, "ProtoMessage") != nil
}

func stripConv2(t *Term) *Term {
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

func mkToDec(x *Term, typ types.Type) *Term {
	if x.Op == "int" {
		return x
	}
	return mk("todec", "", typ, x)
}

func typeNameOr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return typeName(t)
}

func ptrElem(p *Term) types.Type {
	if p.Typ == nil {
		return nil
	}
	pt, ok := p.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	return pt.Elem()
}

func (c *fctx) modelBank(s *State, meth string, rts []types.Type, args []*Term, ins ssa.Instruction, id string) ([]*Outcome, bool) {
	a := make([]*Term, 0, len(args))
	for _, x := range args[2:] { // drop keeper and ctx
		a = append(a, c.resolveSlice(s, x))
	}
	switch meth {
	case "SendCoins", "SendCoinsFromModuleToAccount", "SendCoinsFromAccountToModule", "SendCoinsFromModuleToModule", "MintCoins", "BurnCoins", "InputOutputCoins":
		er := mk("errres", id, rts[0])
		s.ev = push(s.ev, &Event{Kind: "bank", Name: meth, Args: a, Facts: s.facts, Pos: ins.Pos(), Path: c.path, Res: er, Err: er})
		s.bankVer = id
		return ret1(s, er), true
	}
	ct := mk("bankq", meth+"@"+s.bankVer, rts[0], a...)
	return ret1(s, ct), true
}

func (c *fctx) modelKV(s *State, meth string, rts []types.Type, args []*Term, ins ssa.Instruction, id string) ([]*Outcome, bool) {
	st := args[0]
	pad := func(vs ...*Term) ([]*Outcome, bool) {
		for len(vs) < len(rts) {
			vs = append(vs, mk("errres", id, rts[len(vs)]))
		}
		return ret1(s, vs...), true
	}
	switch meth {
	case "Get":
		k := fullKey(s, st, c.resolveSlice(s, args[1]))
		return pad(kvGet(s, k))
	case "Has":
		k := fullKey(s, st, c.resolveSlice(s, args[1]))
		a, p := mkEq(kvGet(s, k), nilTerm)
		return pad(litTerm(a, !p))
	case "Set":
		k := fullKey(s, st, c.resolveSlice(s, args[1]))
		v := c.resolveSlice(s, args[2])
		s.ev = push(s.ev, &Event{Kind: "kvset", Args: []*Term{k, v}, Snap: []*Term{c.snapshot(s, v, 6)}, Old: kvGet(s, k), Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		s.kv = &kvNode{prev: s.kv, key: k, val: v, tag: id}
		return pad()
	case "Delete":
		k := fullKey(s, st, c.resolveSlice(s, args[1]))
		s.ev = push(s.ev, &Event{Kind: "kvdel", Args: []*Term{k}, Old: kvGet(s, k), Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		s.kv = &kvNode{prev: s.kv, key: k, val: nil, tag: id}
		return pad()
	case "Iterator", "ReverseIterator":
		if st.Op == "pstore" {
			meth += "sub"
		}
		it := mk("iter", meth, rts[0], fullKey(s, st, c.resolveSlice(s, args[1])), c.resolveSlice(s, args[2]))
		s.ev = push(s.ev, &Event{Kind: "kviter", Args: it.Args, Facts: s.facts, Pos: ins.Pos(), Path: c.path})
		return pad(it)
	}
	return nil, false
}

var _ = fmt.Sprint

// search models sort.Search: the result is the number of elements or satisfies
// the predicate, and is the first index or its predecessor does not satisfy it.
func (c *fctx) search(s *State, args []*Term, rt types.Type, id string) []*Outcome {
	n, pred := args[0], args[1]
	if pred.Op != "closure" && pred.Op != "func" {
		return nil
	}
	i := mk("found", id, rt, n)
	// test runs the predicate at an index and keeps the paths where it is v
	test := func(st *State, at *Term, v bool, id string) []*State {
		var fn *ssa.Function
		if pred.Op == "closure" {
			fn = c.in.P.closures[pred]
		} else {
			fn = c.in.P.funcs[pred]
		}
		if fn == nil || len(fn.Blocks) == 0 {
			return nil
		}
		fr := st.fr
		var r []*State
		for _, o := range c.in.execFunc(fn, []*Term{at}, pred.Args, st.clone(), id) {
			if o.Kind != "ret" || len(o.Vals) != 1 {
				continue
			}
			f := o.St.facts.assume(o.Vals[0], v)
			if f == nil {
				continue
			}
			ns := st.clone()
			ns.fr, ns.facts, ns.ev = fr, f, o.St.ev
			r = append(r, ns)
		}
		return r
	}
	add := func(st *State, l Lit) *State {
		f := st.facts.assume(l.a, l.p)
		if f == nil {
			return nil
		}
		ns := st.clone()
		ns.facts = f
		return ns
	}
	base := add(s, geL(i, ci(0), true))
	if base == nil {
		return nil
	}
	var mid []*State
	if x := add(base, eqL(i, n)); x != nil {
		mid = append(mid, x)
	}
	if x := add(base, ltL(i, n, true)); x != nil {
		mid = append(mid, test(x, i, true, id+"?")...)
	}
	var outs []*Outcome
	for _, m := range mid {
		if x := add(m, eqL(i, ci(0))); x != nil {
			x.fr = s.fr
			outs = append(outs, &Outcome{St: x, Kind: "ret", Vals: []*Term{i}})
		}
		if x := add(m, ltL(ci(0), i, true)); x != nil {
			for _, y := range test(x, linAdd(i, ci(1), -1, rt), false, id+"!") {
				y.fr = s.fr
				outs = append(outs, &Outcome{St: y, Kind: "ret", Vals: []*Term{i}})
			}
		}
	}
	for k, o := range outs { // every path gets a frame of its own
		if k > 0 {
			o.St.fr = s.fr.clone()
		}
	}
	return outs
}
