package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P31: the state machine is deterministic. Every function of the repository
// reachable from the handlers of messages, the begin and end of blocks and
// genesis is free of sources of nondeterminism and keeps no state outside of
// the store.

func ruleP31(w *World, r *R) {
	var roots []*ssa.Function
	for _, e := range w.Entries {
		roots = append(roots, e.Fn)
		if e.VB != nil {
			roots = append(roots, e.VB)
		}
	}
	for _, t := range w.poolTypes() {
		_ = t
	}
	fns := w.reach(roots)
	for _, fn := range fns {
		r.determinate(w, fn)
	}
	r.floor("FUNCTION", 1)
	r.floor("GLOBAL", 1)
}

// reach lists the repository functions reachable from the roots: callees,
// functions taken as values, and every implementation in the repository of a
// method called through an interface.
func (w *World) reach(roots []*ssa.Function) []*ssa.Function {
	byName := map[string][]*ssa.Function{}
	var impls []types.Type
	for path, sp := range w.P.SSA {
		if !strings.HasPrefix(path, "defund") {
			continue
		}
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			impls = append(impls, t.Type(), types.NewPointer(t.Type()))
		}
	}
	_ = byName
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	doneInv := map[*types.Func]bool{}
	invoke := func(m *types.Func, it *types.Interface) {
		if doneInv[m] {
			return
		}
		doneInv[m] = true
		for _, t := range impls {
			if it == nil || !types.Implements(t, it) {
				continue
			}
			sel := w.P.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if f := w.P.Prog.MethodValue(sel); f != nil {
				visit(f)
			}
		}
	}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !w.P.inRepoFn(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
					invoke(c.Common().Method, it)
				}
				if mi, ok := in.(*ssa.MakeInterface); ok && usedOutside(w, mi) {
					// handed to code outside of the repository, which may call its methods
					ms := w.P.Prog.MethodSets.MethodSet(mi.X.Type())
					if protoMessage(mi.X.Type()) {
						continue
					}
					for i := 0; i < ms.Len(); i++ {
						switch ms.At(i).Obj().Name() {
						case "String", "Error", "Unwrap", "Less", "Len", "Swap", "Format":
							visit(w.P.Prog.MethodValue(ms.At(i)))
						}
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func usedOutside(w *World, mi *ssa.MakeInterface) bool {
	return mi.X.Type() != nil && !types.IsInterface(mi.X.Type())
}

func protoMessage(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "ProtoMessage" {
			return true
		}
	}
	return false
}

// nondeterminate are packages whose functions depend on more than their
// arguments.
func nondeterminate(fn *ssa.Function) string {
	path := fnPkgPath(fn)
	switch path {
	case "math/rand", "math/rand/v2", "crypto/rand":
		return "random numbers"
	case "os", "os/user", "runtime", "syscall", "net", "net/http", "io/ioutil", "runtime/debug":
		return "the environment of the node"
	case "hash/maphash", "unique":
		return "a random seed"
	case "sync", "sync/atomic":
		return "other goroutines"
	}
	if path == "time" {
		if fn.Signature.Recv() != nil {
			if fn.Name() == "Local" {
				return "the time zone of the node"
			}
			return ""
		}
		switch fn.Name() {
		case "Now", "Since", "Until", "After", "Tick", "Sleep", "NewTimer", "NewTicker", "AfterFunc", "LoadLocation":
			return "the clock of the node"
		}
	}
	return ""
}

func (r *R) determinate(w *World, fn *ssa.Function) {
	at := w.P.funcName(fn)
	r.ob("FUNCTION", at, fn.Pos(), true, "")
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			pos := in.Pos()
			switch x := in.(type) {
			case *ssa.Go:
				r.ob("GOROUTINE", at, pos, false, "a goroutine is started")
			case *ssa.Select:
				r.ob("SELECT", at, pos, false, "a choice between channels")
			case *ssa.BinOp:
				if isFloat(x.X.Type()) && !isCompare(x.Op) {
					r.ob("FLOAT", at, pos, false, "floating point arithmetic, which may round differently on other machines")
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					why := w.mapOrder(fn, x)
					r.ob("MAP-ORDER", at, rangePos(x), why == "", "the result depends on the order of a map: %s", why)
				}
			case *ssa.Store:
				if root := shared(x.Addr, 0); root != "" {
					r.ob("GLOBAL", at, pos, false, "%s is changed: state outside of the store", root)
				} else {
					r.ob("GLOBAL", at, pos, true, "")
				}
			case *ssa.MapUpdate:
				root := shared(x.Map, 0)
				r.ob("GLOBAL", at, pos, root == "", "%s is changed: state outside of the store", root)
			case *ssa.Convert:
				if p, ok := x.X.Type().Underlying().(*types.Basic); ok && p.Kind() == types.UnsafePointer {
					r.ob("POINTER", at, pos, false, "an address is used as a value")
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				continue
			}
			g := cc.StaticCallee()
			if g == nil {
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					root := shared(cc.Args[0], 0)
					r.ob("GLOBAL", at, pos, root == "", "%s is changed: state outside of the store", root)
				}
				continue
			}
			if w.P.inRepoFn(g) && len(g.Blocks) > 0 {
				continue
			}
			if why := nondeterminate(g); why != "" {
				v, isVal := in.(ssa.Value)
				r.ob("SOURCE", at, pos, isVal && onlyMeasures(v), "%s depends on %s", g.Name(), why)
			}
			if strings.HasSuffix(g.Name(), "Mut") && len(cc.Args) > 0 || inPlace(g) {
				root := shared(cc.Args[0], 0)
				r.ob("GLOBAL", at, pos, root == "", "%s is changed: state outside of the store", root)
			}
			p := fnPkgPath(g)
			if (p == "maps" || p == "golang.org/x/exp/maps") && (g.Name() == "Keys" || g.Name() == "Values" || g.Name() == "All") || strings.HasPrefix(g.Name(), "Keys[") && strings.HasSuffix(p, "maps") {
				v, isVal := in.(ssa.Value)
				r.ob("MAP-ORDER", at, pos, isVal && sortedBeforeUse(v), "the keys of a map are used in no order")
			}
			if p == "fmt" {
				for _, a := range cc.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
						r.ob("POINTER", at, pos, false, "an address is printed")
					}
				}
			}
		}
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isCompare(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func rangePos(x *ssa.Range) token.Pos {
	if x.Pos().IsValid() {
		return x.Pos()
	}
	return x.X.Pos()
}

// inPlace: a method of math/big that changes its receiver.
func inPlace(g *ssa.Function) bool {
	if fnPkgPath(g) != "math/big" || g.Signature.Recv() == nil || len(g.Params) == 0 {
		return false
	}
	res := g.Signature.Results()
	return res.Len() >= 1 && types.Identical(res.At(0).Type(), g.Signature.Recv().Type())
}

// shared names the package variable or keeper an address or reference leads
// to.
func shared(v ssa.Value, depth int) string {
	if depth > 12 || v == nil {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Global:
		return "package variable " + x.Name()
	case *ssa.FieldAddr:
		return shared(x.X, depth+1)
	case *ssa.IndexAddr:
		return shared(x.X, depth+1)
	case *ssa.Slice:
		return shared(x.X, depth+1)
	case *ssa.Field:
		if refLike(x.Type()) {
			return shared(x.X, depth+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if refLike(x.Type()) || keeperLike(x.Type()) || structOf(x.Type()) != nil {
				if a, ok := x.X.(*ssa.Alloc); ok {
					// a local copy: what was stored in it
					if refLike(x.Type()) {
						return sharedStored(a, depth+1)
					}
					return sharedStored(a, depth+1)
				}
				return shared(x.X, depth+1)
			}
		}
	case *ssa.Alloc:
		return ""
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := shared(e, depth+4); s != "" {
				return s
			}
		}
	case *ssa.Parameter:
		if keeperLike(x.Type()) {
			return "a field of " + types.TypeString(x.Type(), func(p *types.Package) string { return p.Name() })
		}
	case *ssa.FreeVar:
		if keeperLike(deref(x.Type())) {
			return "a field of " + types.TypeString(x.Type(), func(p *types.Package) string { return p.Name() })
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && inPlace(g) && len(x.Call.Args) > 0 {
			return shared(x.Call.Args[0], depth+1)
		}
	case *ssa.TypeAssert:
		return shared(x.X, depth+1)
	case *ssa.MakeInterface:
		return shared(x.X, depth+1)
	}
	return ""
}

// sharedStored: a reference kept in a local variable came from shared state.
func sharedStored(a *ssa.Alloc, depth int) string {
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			if s := shared(st.Val, depth+1); s != "" {
				return s
			}
		}
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return true
	}
	return false
}

// keeperLike: a value that lives as long as the application.
func keeperLike(t types.Type) bool {
	switch typeName(deref(t)) {
	case pKeep + ".Keeper", pKeep + ".msgServer", pKeep + ".Querier", pModule + ".AppModule", pModule + ".AppModuleBasic", pKeep + ".Migrator":
		return true
	}
	return false
}

// onlyMeasures: a time only goes into measurements.
func onlyMeasures(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return true
	}
	for _, u := range *refs {
		switch x := u.(type) {
		case ssa.CallInstruction:
			g := x.Common().StaticCallee()
			if g == nil {
				return false
			}
			if strings.HasSuffix(fnPkgPath(g), "cosmos-sdk/telemetry") || strings.HasSuffix(fnPkgPath(g), "go-metrics") {
				continue
			}
			if fnPkgPath(g) == "time" {
				if rv, ok := x.(ssa.Value); ok && onlyMeasures(rv) {
					continue
				}
			}
			return false
		case *ssa.Store:
			a, ok := x.Addr.(*ssa.Alloc)
			if !ok || !onlyLoads(a) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func onlyLoads(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
		case *ssa.UnOp:
			if !onlyMeasures(x) {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == a {
					for _, ref := range *fn.FreeVars[i].Referrers() {
						if l, ok := ref.(*ssa.UnOp); !ok || !onlyMeasures(l) {
							return false
						}
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// ---- map iteration ------------------------------------------------------------

// mapOrder explains how a map iteration depends on the order of the map, "" if
// it does not.
func (w *World) mapOrder(fn *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if next != nil {
				return "more than one cursor"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	loop := naturalLoop(head)
	var key, val ssa.Value
	var done ssa.Value
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			switch e.Index {
			case 0:
				done = e
			case 1:
				key = e
			case 2:
				val = e
			}
		}
	}
	_ = done
	// own: reached through this element only
	own := map[ssa.Value]bool{}
	if key != nil {
		own[key] = true
	}
	if val != nil {
		own[val] = true
	}
	for changed := true; changed; {
		changed = false
		for b := range loop {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || own[v] {
					continue
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if own[x.X] {
						own[v], changed = true, true
					}
				case *ssa.Field:
					if own[x.X] {
						own[v], changed = true, true
					}
				case *ssa.UnOp:
					if own[x.X] {
						own[v], changed = true, true
					}
				case *ssa.TypeAssert:
					if own[x.X] {
						own[v], changed = true, true
					}
				case *ssa.Extract:
					if own[x.Tuple] {
						own[v], changed = true, true
					}
				case *ssa.ChangeInterface:
					if own[x.X] {
						own[v], changed = true, true
					}
				case *ssa.MakeInterface:
					if own[x.X] {
						own[v], changed = true, true
					}
				case *ssa.ChangeType:
					if own[x.X] {
						own[v], changed = true, true
					}
				case *ssa.Alloc:
					if !x.Heap || x.Comment == "complit" || x.Comment == "new" || x.Comment == "varargs" || inLoopAlloc(x) {
						own[v], changed = true, true
					}
				case *ssa.MakeMap, *ssa.MakeSlice:
					own[v], changed = true, true
				}
			}
		}
	}
	for b := range loop {
		for _, s := range b.Succs {
			if !loop[s] && b != head {
				// leaving early: fine if nothing of the element is kept
				if !constantExit(b, s, loop) {
					return "it ends at the first element that fits"
				}
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b != head {
					continue
				}
				for i, e := range x.Edges {
					if loop[b.Preds[i]] {
						if why := commutes(x, e, loop, 0); why != "" {
							return why
						}
					}
				}
			case *ssa.Store:
				if !own[x.Addr] && !ownAddr(x.Addr, own) {
					// a variable of the function: the same as a loop-carried value
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						if why := commutesMem(a, x.Val, 0); why != "" {
							return why
						}
						continue
					}
					return "something outside of the element is written"
				}
			case *ssa.MapUpdate:
				if own[x.Map] {
					continue
				}
				if x.Key != key && !derivedFrom(x.Key, key, 0) {
					if c, ok := x.Value.(*ssa.Const); !ok || c == nil {
						if why := commutesLookup(x); why != "" {
							return why
						}
					}
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if _, ok := v.(*ssa.Const); !ok {
						return "it returns at the first element that fits"
					}
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "steps are left for later in its order"
			case ssa.CallInstruction:
				if why := w.ordered(x, own); why != "" {
					return why
				}
			}
		}
	}
	// what was collected must be sorted before it is used
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && !sortedAfter(ph, loop) {
			return "a list is made in its order"
		}
	}
	return ""
}

func inLoopAlloc(a *ssa.Alloc) bool { return true }

func ownAddr(v ssa.Value, own map[ssa.Value]bool) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return own[x.X] || ownAddr(x.X, own)
	case *ssa.IndexAddr:
		return own[x.X] || ownAddr(x.X, own)
	}
	return own[v]
}

// naturalLoop is the set of blocks of the loops with the given head.
func naturalLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{head: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		loop[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			up(p)
		}
	}
	return loop
}

// constantExit: leaving from b to s carries only constants.
func constantExit(b, s *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	if len(s.Instrs) > 0 {
		if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
			return true
		}
	}
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			return true
		}
	}
	// nothing defined in the loop may be used beyond it on this way
	for lb := range loop {
		for _, in := range lb.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if u.Block() == nil || loop[u.Block()] {
					continue
				}
				if ph, ok := u.(*ssa.Phi); ok {
					for i, e := range ph.Edges {
						if e == v && ph.Block().Preds[i] == b {
							return false
						}
					}
					continue
				}
				if reaches(s, u.Block()) {
					return false
				}
			}
		}
	}
	return true
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(a)
}

// commutes: the value carried round the loop is the old one combined with the
// element in a way that does not depend on the order.
func commutes(ph *ssa.Phi, e ssa.Value, loop map[*ssa.BasicBlock]bool, depth int) string {
	if depth > 12 {
		return "a value is carried on in its order"
	}
	if e == ph {
		return ""
	}
	if _, ok := e.(*ssa.Const); ok {
		return ""
	}
	if !inLoop(e, loop) {
		return ""
	}
	switch x := e.(type) {
	case *ssa.Phi:
		for _, y := range x.Edges {
			if y == x {
				continue
			}
			if why := commutes(ph, y, loop, depth+1); why != "" {
				return why
			}
		}
		return ""
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
			if isFloat(x.Type()) || isString(x.Type()) {
				break
			}
			return commutesWith(ph, x.X, x.Y, loop, depth)
		case token.SUB:
			if usesPhi(x.Y, ph, 0) {
				break
			}
			return commutes(ph, x.X, loop, depth+1)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			// collected: must be sorted later
			return commutes(ph, x.Call.Args[0], loop, depth+1)
		}
		if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) == 2 {
			switch g.Name() {
			case "Add", "Sub", "AddRaw", "SubRaw", "MinInt", "MaxInt", "LegacyMinDec", "LegacyMaxDec":
				if g.Name() == "Sub" || g.Name() == "SubRaw" {
					if usesPhi(x.Call.Args[1], ph, 0) {
						break
					}
					return commutes(ph, x.Call.Args[0], loop, depth+1)
				}
				return commutesWith(ph, x.Call.Args[0], x.Call.Args[1], loop, depth)
			}
		}
	}
	return "a value is carried on in its order"
}

func commutesWith(ph *ssa.Phi, a, b ssa.Value, loop map[*ssa.BasicBlock]bool, depth int) string {
	if !usesPhi(b, ph, 0) {
		return commutes(ph, a, loop, depth+1)
	}
	if !usesPhi(a, ph, 0) {
		return commutes(ph, b, loop, depth+1)
	}
	return "a value is carried on in its order"
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func inLoop(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && loop[in.Block()]
}

// usesPhi: v is made from the loop-carried value.
func usesPhi(v ssa.Value, ph *ssa.Phi, depth int) bool {
	if v == ph {
		return true
	}
	if depth > 10 {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == ph.Block() {
		return true
	}
	var ops []*ssa.Value
	for _, op := range in.Operands(ops) {
		if op != nil && *op != nil && usesPhi(*op, ph, depth+1) {
			return true
		}
	}
	return false
}

// commutesMem: as commutes, for a variable kept in memory.
func commutesMem(a *ssa.Alloc, v ssa.Value, depth int) string {
	isLoad := func(x ssa.Value) bool {
		u, ok := x.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == a
	}
	if _, ok := v.(*ssa.Const); ok {
		return ""
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if (x.Op == token.ADD || x.Op == token.SUB) && isLoad(x.X) && !isFloat(x.Type()) && !isString(x.Type()) {
			return ""
		}
		if x.Op == token.ADD && isLoad(x.Y) && !isFloat(x.Type()) && !isString(x.Type()) {
			return ""
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) == 2 && (g.Name() == "Add" || g.Name() == "Sub") && isLoad(x.Call.Args[0]) {
			return ""
		}
	}
	return "a value is carried on in its order"
}

// commutesLookup: m[k] = m[k].Add(...)
func commutesLookup(x *ssa.MapUpdate) string {
	isOld := func(v ssa.Value) bool {
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		l, ok := v.(*ssa.Lookup)
		return ok && l.X == x.Map && l.Index == x.Key
	}
	switch v := x.Value.(type) {
	case *ssa.BinOp:
		if v.Op == token.ADD && (isOld(v.X) || isOld(v.Y)) {
			return ""
		}
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && len(v.Call.Args) == 2 && (g.Name() == "Add" || g.Name() == "Sub") && isOld(v.Call.Args[0]) {
			return ""
		}
	}
	return "another map is written in its order"
}

func derivedFrom(v, from ssa.Value, depth int) bool {
	if v == from {
		return true
	}
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return derivedFrom(x.X, from, depth+1)
	case *ssa.Convert:
		return derivedFrom(x.X, from, depth+1)
	case *ssa.MakeInterface:
		return derivedFrom(x.X, from, depth+1)
	}
	return false
}

// ordered: a call in a map iteration has effects beyond its element.
func (w *World) ordered(c ssa.CallInstruction, own map[ssa.Value]bool) string {
	cc := c.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return ""
	}
	name := calleeName(cc)
	if cc.IsInvoke() {
		if own[cc.Value] {
			for _, a := range cc.Args {
				if ctxLike(a.Type()) {
					return name + " acts on the state"
				}
			}
			return ""
		}
		if pureGetter(cc.Method.Name()) {
			return ""
		}
		return name + " acts in its order"
	}
	g := cc.StaticCallee()
	if g == nil {
		return "a function value is called in its order"
	}
	for _, a := range cc.Args {
		if ctxLike(a.Type()) {
			return name + " acts on the state in its order"
		}
	}
	if !w.P.inRepoFn(g) || len(g.Blocks) == 0 {
		if nonlocalArgs(cc.Args, own) && !pureLib(g) {
			return name + " acts in its order"
		}
		return ""
	}
	for _, f := range w.reach([]*ssa.Function{g}) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if shared(x.Addr, 0) != "" {
						return name + " writes shared state in its order"
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if ctxLike(a.Type()) {
							return name + " acts on the state in its order"
						}
					}
				}
			}
		}
	}
	if nonlocalArgs(cc.Args, own) {
		return name + " acts on more than the element in its order"
	}
	return ""
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if g := cc.StaticCallee(); g != nil {
		return g.Name()
	}
	return cc.Value.Name()
}

func ctxLike(t types.Type) bool {
	n := typeName(t)
	return n == "context.Context" || strings.HasSuffix(n, "cosmos-sdk/types.Context") || strings.HasSuffix(n, "types.KVStore")
}

func pureGetter(n string) bool {
	return strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Is") || strings.HasPrefix(n, "Has") || n == "String"
}

// pureLib: library functions that only compute.
func pureLib(g *ssa.Function) bool {
	switch p := fnPkgPath(g); {
	case p == "fmt":
		return strings.HasPrefix(g.Name(), "Sprint") || g.Name() == "Errorf"
	case p == "strings", p == "strconv", p == "bytes", p == "errors", p == "math", strings.HasSuffix(p, "cosmossdk.io/math"), strings.HasSuffix(p, "cosmossdk.io/errors"):
		return true
	case strings.HasSuffix(p, "cosmos-sdk/types"):
		return true
	}
	return false
}

// nonlocalArgs: an argument refers to something that is not of the element.
func nonlocalArgs(args []ssa.Value, own map[ssa.Value]bool) bool {
	for _, a := range args {
		if _, ok := a.(*ssa.Const); ok || own[a] {
			continue
		}
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
			return true
		}
	}
	return false
}

// sortedAfter: what a loop collects is sorted before anything else is done
// with it.
func sortedAfter(ph *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	var uses []ssa.Instruction
	changed := false
	for i, e := range ph.Edges {
		if loop[ph.Block().Preds[i]] && e != ssa.Value(ph) {
			changed = true
		}
	}
	if !changed {
		return true
	}
	for _, u := range *ph.Referrers() {
		if !loop[u.Block()] {
			uses = append(uses, u)
		}
	}
	return sortedUses(uses)
}

func sortedBeforeUse(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	return sortedUses(*v.Referrers())
}

func sortedUses(uses []ssa.Instruction) bool {
	var sorts []ssa.Instruction
	isSort := func(u ssa.Instruction) bool {
		c, ok := u.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		if g == nil {
			return false
		}
		p := fnPkgPath(g)
		if g.Origin() != nil {
			p = fnPkgPath(g.Origin())
		}
		return p == "sort" || (p == "slices" || p == "golang.org/x/exp/slices") && strings.HasPrefix(g.Name(), "Sort")
	}
	var rest []ssa.Instruction
	for _, u := range uses {
		switch x := u.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.MakeInterface:
			if sortedUses(*x.Referrers()) {
				for _, v := range *x.Referrers() {
					if isSort(v) {
						sorts = append(sorts, v)
					}
				}
				continue
			}
		case *ssa.ChangeType:
			for _, v := range *x.Referrers() {
				if isSort(v) {
					sorts = append(sorts, v)
				}
			}
			rest = append(rest, *x.Referrers()...)
			continue
		case *ssa.MakeClosure:
			continue // the comparison
		}
		if isSort(u) {
			sorts = append(sorts, u)
			continue
		}
		if c, ok := u.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				continue
			}
		}
		rest = append(rest, u)
	}
	for _, u := range rest {
		if isSort(u) {
			continue
		}
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() && before(s, u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}
