package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P32: a step that fails makes the whole message, request or block fail: no
// error is swallowed, and nothing that changes the state is run where a panic
// is recovered from.

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func ruleP32(w *World, r *R) {
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis") {
		at := u.where()
		for _, e := range u.Events {
			if e.Err == nil {
				continue
			}
			r.ob("NOTICED", at, e.Pos, u.Facts.has(isNilL(e.Err)), "goes on although %s may have failed", e.Name)
		}
	}
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis") {
		for a, v := range u.Facts.m {
			if a.Op == "isnil" && !v && a.Args[0].Typ != nil && isErrorType(a.Args[0].Typ) {
				r.ob("GOES-ON", u.where(), 0, false, "goes on after the error %v", a.Args[0])
			}
		}
	}
	r.floor("NOTICED", 1)

	var roots []*ssa.Function
	for _, e := range w.Entries {
		if e.Kind == "export" {
			continue
		}
		roots = append(roots, e.Fn)
	}
	fns := w.reach(roots)
	eff := w.effectful()
	for _, fn := range fns {
		at := w.P.funcName(fn)
		rec := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					rec = true
				}
				if i := errResult(cc.Signature()); i >= 0 && droppedError(c, i) && !harmless(cc) {
					r.ob("DROPPED", at, in.Pos(), neverFails(w, cc, nil, 0), "the error of %s is dropped", cc.String())
				} else if i >= 0 {
					r.ob("DROPPED", at, in.Pos(), true, "")
				}
			}
		}
		if !rec {
			continue
		}
		// a deferred function that recovers: what runs under it
		for _, o := range w.protected(fn) {
			for _, g := range w.reach([]*ssa.Function{o}) {
				r.ob("RECOVERED", w.P.funcName(o), g.Pos(), !eff[g], "%s changes the state where a panic is recovered from, which leaves the change half made", w.P.funcName(g))
			}
		}
	}
	r.floor("DROPPED", 1)
}

func errResult(sig *types.Signature) int {
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

// droppedError: nothing reads the error a call gives.
func droppedError(c ssa.CallInstruction, i int) bool {
	v, ok := c.(ssa.Value)
	if !ok {
		return true
	}
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	if c.Common().Signature().Results().Len() == 1 {
		return !isRead(v)
	}
	for _, x := range *refs {
		if e, ok := x.(*ssa.Extract); ok && e.Index == i {
			return !isRead(e)
		}
		if _, ok := x.(*ssa.Return); ok {
			return false
		}
	}
	return true
}

func isRead(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, x := range *refs {
		if _, ok := x.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// harmless calls whose failure changes nothing: printing, logging, closing an
// iterator.
func harmless(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		n := cc.Method.Name()
		return n == "Close" || n == "Write" || n == "WriteString" || strings.HasPrefix(n, "EmitTypedEvent")
	}
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	switch fnPkgPath(g) {
	case "fmt", "strings", "bytes", "io", "github.com/cosmos/cosmos-sdk/telemetry", "encoding/json":
		return true
	}
	return false
}

// fval is a function value and what its free variables and parameters are.
type fval struct {
	fn  *ssa.Function
	env map[ssa.Value]*fval
}

func resolveFn(v ssa.Value, env map[ssa.Value]*fval) *fval {
	return resolveFnIn(v, env, 0)
}

func resolveFnIn(v ssa.Value, env map[ssa.Value]*fval, depth int) *fval {
	if depth > 16 { // a variable stored into itself
		return nil
	}
	if f := env[v]; f != nil {
		return f
	}
	switch x := v.(type) {
	case *ssa.Function:
		return &fval{fn: x}
	case *ssa.ChangeType:
		return resolveFnIn(x.X, env, depth+1)
	case *ssa.MakeInterface:
		return resolveFnIn(x.X, env, depth+1)
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		if f == nil {
			return nil
		}
		e := map[ssa.Value]*fval{}
		for i, b := range x.Bindings {
			if t := resolveFnIn(b, env, depth+1); t != nil && i < len(f.FreeVars) {
				e[f.FreeVars[i]] = t
			}
		}
		return &fval{fn: f, env: e}
	case *ssa.Alloc: // a captured variable set once
		var val ssa.Value
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == x {
				if val != nil {
					return nil
				}
				val = st.Val
			}
		}
		if val != nil {
			return resolveFnIn(val, env, depth+1)
		}
	case *ssa.UnOp:
		return resolveFnIn(x.X, env, depth+1)
	}
	return nil
}

// neverFails: the call gives no error.
func neverFails(w *World, cc *ssa.CallCommon, env map[ssa.Value]*fval, depth int) bool {
	if cc.IsInvoke() || depth > 8 {
		return false
	}
	f := resolveFn(cc.Value, env)
	if f == nil || len(f.fn.Blocks) == 0 || !w.P.inRepoFn(f.fn) {
		return false
	}
	in := map[ssa.Value]*fval{}
	for k, v := range f.env {
		in[k] = v
	}
	for i, a := range cc.Args {
		if t := resolveFn(a, env); t != nil && i < len(f.fn.Params) {
			in[f.fn.Params[i]] = t
		}
	}
	i := errResult(f.fn.Signature)
	if i < 0 {
		return true
	}
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			if ret, ok := ins.(*ssa.Return); ok && !nilErr(w, ret.Results[i], in, depth, map[ssa.Value]bool{}) && !noErrorHere(w, b, in, depth) {
				return false
			}
		}
	}
	return true
}

// noErrorHere: the block is only reached with an error that never occurs.
func noErrorHere(w *World, b *ssa.BasicBlock, env map[ssa.Value]*fval, depth int) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := c.Cond.(*ssa.BinOp)
		if !ok || !isErrorType(cmp.X.Type()) {
			continue
		}
		k, ok := cmp.Y.(*ssa.Const)
		if !ok || !k.IsNil() {
			continue
		}
		if (cmp.Op == token.NEQ && p.Succs[0] == d || cmp.Op == token.EQL && p.Succs[1] == d) && nilErr(w, cmp.X, env, depth, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func nilErr(w *World, v ssa.Value, env map[ssa.Value]*fval, depth int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !nilErr(w, e, env, depth, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp: // named results kept in memory
		a, ok := x.X.(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			return false
		}
		for _, ref := range *a.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr != a || !nilErr(w, y.Val, env, depth, seen) && !noErrorHere(w, y.Block(), env, depth) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && neverFails(w, c.Common(), env, depth+1)
	case *ssa.Call:
		return neverFails(w, x.Common(), env, depth+1)
	}
	return false
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.MakeInterface:
		return funcOf(x.X)
	}
	return nil
}

// effectful are the functions of the repository that write to the store, move
// coins or emit events themselves.
func (w *World) effectful() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for path := range w.P.SSA {
		if !strings.HasPrefix(path, "defund") {
			continue
		}
		for _, fn := range w.P.fnsOf(path) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					name := ""
					var pkg string
					if cc.IsInvoke() {
						name = cc.Method.Name()
						if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
							pkg = n.Obj().Pkg().Path() + "." + n.Obj().Name()
						}
					} else if g := cc.StaticCallee(); g != nil {
						name, pkg = g.Name(), fnPkgPath(g)
					}
					switch {
					case strings.Contains(pkg, "store") && (name == "Set" || name == "Delete"),
						strings.HasSuffix(pkg, "BankKeeper") && (strings.HasPrefix(name, "Send") || strings.HasPrefix(name, "Mint") || strings.HasPrefix(name, "Burn") || name == "InputOutputCoins"),
						strings.HasPrefix(name, "SetParamSet"):
						out[fn] = true
					}
				}
			}
		}
	}
	return out
}

// protected lists what runs under a deferred function that recovers: the
// function that defers it, when it calls its parameters the functions given to
// it, and what is passed on.
func (w *World) protected(rec *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	// deferred: who defers rec (or a closure of it)
	for _, f := range w.users(rec) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok || funcOf(d.Call.Value) != rec && d.Call.StaticCallee() != rec {
					continue
				}
				add(f)
				for _, p := range f.Params {
					if _, ok := p.Type().Underlying().(*types.Signature); !ok {
						continue
					}
					// what is given to it anywhere
					for _, g := range w.users(f) {
						for _, b := range g.Blocks {
							for _, in := range b.Instrs {
								c, ok := in.(ssa.CallInstruction)
								if !ok || c.Common().StaticCallee() != f {
									continue
								}
								for _, a := range c.Common().Args {
									add(funcOf(a))
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}
