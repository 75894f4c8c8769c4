package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// paramRules: what a valid value of each parameter is.
var paramRules = map[string]func(v *Term) []Lit{
	"BatchSize":                       func(v *Term) []Lit { return []Lit{neL(v, ci(0))} },
	"TickPrecision":                   func(v *Term) []Lit { return nil },
	"FeeCollectorAddress":             func(v *Term) []Lit { return []Lit{bech32OK(v)} },
	"DustCollectorAddress":            func(v *Term) []Lit { return []Lit{bech32OK(v)} },
	"MinInitialPoolCoinSupply":        func(v *Term) []Lit { return []Lit{ltL(ci(0), v, false)} },
	"PairCreationFee":                 func(v *Term) []Lit { return []Lit{errNil(sdkCoins+".Validate", v)} },
	"PoolCreationFee":                 func(v *Term) []Lit { return []Lit{errNil(sdkCoins+".Validate", v)} },
	"MinInitialDepositAmount":         func(v *Term) []Lit { return []Lit{geL(v, ci(0), false)} },
	"MaxPriceLimitRatio":              func(v *Term) []Lit { return []Lit{geL(v, ci(0), false), ltL(v, ci(1), false)} },
	"MaxNumMarketMakingOrderTicks":    func(v *Term) []Lit { return []Lit{neL(v, ci(0))} },
	"MaxNumMarketMakingOrdersPerPair": func(v *Term) []Lit { return []Lit{neL(v, ci(0))} },
	"MaxOrderLifespan":                func(v *Term) []Lit { return []Lit{geL(v, ci(0), false)} },
	"SwapFeeRate":                     func(v *Term) []Lit { return []Lit{geL(v, ci(0), false)} },
	"WithdrawFeeRate":                 func(v *Term) []Lit { return []Lit{geL(v, ci(0), false), geL(ci(1), v, false)} },
	"DepositExtraGas":                 func(v *Term) []Lit { return nil },
	"WithdrawExtraGas":                func(v *Term) []Lit { return nil },
	"OrderExtraGas":                   func(v *Term) []Lit { return nil },
	"MaxNumActivePoolsPerPair":        func(v *Term) []Lit { return nil },
}

// broken: the facts contradict the rule for v (or say that v is missing).
func paramBroken(f *Facts, field string, v *Term) bool {
	for _, l := range paramRules[field](v) {
		if f.contra(l) {
			return true
		}
	}
	return f.has(Lit{callT("("+pMath+".Int).IsNil", v), true}) || f.has(Lit{callT("("+pMath+".LegacyDec).IsNil", v), true})
}

// P28: parameters change only by the authority, and only to valid values.
func ruleP28(w *World, r *R) {
	// 1. who can change them
	var auth *Term
	for _, u := range w.AllUnits("msg", "begin", "end") {
		for _, ev := range u.Events {
			switch ev.Kind {
			case "psetone":
				r.ob("ONE-BY-ONE", u.where(), ev.Pos, false, "a single parameter is set: %v", ev.Args[0])
			case "pset":
				at := u.where()
				if !r.ob("SET-BY-UPDATE", at, ev.Pos, u.Entry.Name == "UpdateParams", "parameters are set") {
					continue
				}
				msg := u.Entry.Msg
				r.ob("SET-VALUE", at, ev.Pos, ev.Args[len(ev.Args)-1] == F(msg, "Params"), "the parameters become %v", ev.Args[len(ev.Args)-1])
				ok := false
				for a, v := range u.Facts.m {
					if a.Op != "eq" || !v {
						continue
					}
					x, y := a.Args[0], a.Args[1]
					if y != F(msg, "Authority") {
						x, y = y, x
					}
					if y == F(msg, "Authority") && x.Op == "field" && x.Args[0].Typ != nil && typeName(x.Args[0].Typ) == pKeep+".Keeper" {
						ok, auth = true, x
					}
				}
				r.ob("SET-AUTHORITY", at, ev.Pos, ok, "the parameters can be changed by someone who is not the module's authority")
			}
		}
	}
	upd := w.ByName["UpdateParams"]
	n := 0
	for _, u := range w.Units(upd) {
		for _, ev := range u.Events {
			if ev.Kind == "pset" {
				n++
			}
		}
		r.ob("UPDATE-ONLY-PARAMS", u.where(), u.pos(), len(kvsets(u.Events)) == 0 && len(kvdels(u.Events)) == 0 && len(transfers(u.Events)) == 0, "updating the parameters has other effects")
	}
	r.ob("UPDATE-WORKS", "UpdateParams", upd.Fn.Pos(), n > 0, "no update of the parameters can succeed")
	r.floor("SET-AUTHORITY", 1)
	// 2. the keeper's authority is the one it was built with
	field := "authority"
	if auth != nil {
		field = auth.Name
	}
	if fn := w.P.fn(pKeep, "", "NewKeeper"); fn != nil {
		run := w.run(fn)
		r.ob("KEEPER", "NewKeeper", fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse: %s", run.Err)
		var given *Term
		for i, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				given = run.Args[i]
			}
		}
		for _, o := range run.rets() {
			k := o.Vals[0]
			r.ob("KEEPER-AUTHORITY", "NewKeeper", o.Pos, given != nil && F(k, field) == given, "the keeper's authority is %v", F(k, field))
			r.ob("KEEPER-AUTHORITY-VALID", "NewKeeper", o.Pos, given != nil && o.Facts().has(bech32OK(given)), "a keeper can be built with an invalid authority")
		}
	}
	r.floor("KEEPER-AUTHORITY", 1)
	if fn := w.P.fn(pModule, "", "ProvideModule"); fn != nil {
		run := w.run(fn)
		r.ob("MODULE", "ProvideModule", fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse: %s", run.Err)
		for _, o := range run.rets() {
			k := F(o.Vals[0], "DexKeeper")
			a := F(k, field)
			f := o.Facts()
			cfg := mk("", "", nil)
			for x := range f.m {
				x.walk(func(t *Term) bool {
					if t.Op == "field" && t.Name == "Authority" {
						cfg = t
					}
					return true
				})
			}
			ok := false
			if a != nil && a.Op == "addrstr" {
				src := a.Args[0]
				if cfg.Op == "field" && (f.has(eqL(mkLen(cfg), ci(0))) || f.has(eqL(cfg, constStr("")))) {
					ok = src.Op == "call" && hasSuffix(src.Name, ".NewModuleAddress") && src.Args[0] == constStr("gov")
				} else {
					ok = src.Op == "call" && hasSuffix(src.Name, ".NewModuleAddressOrBech32Address") && src.Args[0] == cfg
				}
			}
			r.ob("MODULE-AUTHORITY", "ProvideModule", o.Pos, ok, "the module's authority is %v", a)
			m := F(o.Vals[0], "Module")
			same := m != nil && m.contains(func(t *Term) bool { return t == k })
			r.ob("MODULE-KEEPER", "ProvideModule", o.Pos, same, "the module does not use the keeper it provides")
		}
	}
	r.floor("MODULE-AUTHORITY", 1)
	// 3. validation of the whole set
	ps := w.typ("Params")
	st := structOf(ps)
	if fn := w.P.fn(pTypes, "Params", "Validate"); r.ob("VALIDATE", "Params.Validate", token.NoPos, fn != nil, "not found") {
		run := w.run(fn)
		r.ob("VALIDATE", "Params.Validate", fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse: %s", run.Err)
		p := run.Args[0]
		for _, o := range run.rets() {
			f := o.Facts()
			v := o.Vals[0]
			if v.Op == "nil" || f.has(Lit{mk("isnil", "", nil, v), true}) {
				for i := 0; i < st.NumFields(); i++ {
					fl := st.Field(i).Name()
					rule, known := paramRules[fl]
					if !r.ob("KNOWN", fl, fn.Pos(), known, "no rule says what a valid %s is", fl) {
						continue
					}
					for _, l := range rule(F(p, fl)) {
						r.ob("ACCEPT-"+fl, "Params.Validate", o.Pos, f.has(l), "parameters are accepted although %v may not hold", l)
					}
				}
				continue
			}
			why := false
			for fl := range paramRules {
				why = why || paramBroken(f, fl, F(p, fl))
			}
			r.ob("REJECT", "Params.Validate", o.Pos, why, "parameters are rejected without a reason, under %v", f)
		}
	}
	// 4. the validators used whenever a parameter is stored
	for _, pr := range w.paramPairs(r) {
		rule := paramRules[pr.field]
		if rule == nil {
			continue
		}
		outs, ok := w.applyFn(pr.fn, []*Term{mk("param", "i", types.NewInterfaceType(nil, nil))}, pr.st)
		if !r.ob("VALIDATOR", pr.field, pr.pos, ok && len(outs) > 0, "cannot analyse the validator %v", pr.fn) {
			continue
		}
		ft := st.Field(fieldIdx(ps, pr.field)).Type()
		accepts := 0
		for _, o := range outs {
			f := o.Facts()
			if o.Kind != "ret" {
				continue
			}
			var is, as *Term
			for a, v := range f.m {
				if a.Op == "typeis" && a.Args[0].Op == "param" {
					if v {
						is = a
					}
				}
			}
			v := o.Vals[0]
			isNil := v.Op == "nil" || f.has(Lit{mk("isnil", "", nil, v), true})
			if is != nil {
				as = mk("as", is.Name, ft, is.Args[0])
			}
			if !isNil {
				why := is == nil || as != nil && paramBroken(f, pr.field, as)
				r.ob("VALIDATOR-REJECT", pr.field, o.Pos, why, "the validator of %s rejects a valid value, under %v", pr.field, f)
				continue
			}
			accepts++
			if r.ob("VALIDATOR-TYPE", pr.field, o.Pos, is != nil && is.Name == typeName(ft), "the validator of %s accepts values of another type (%v)", pr.field, is) {
				for _, l := range rule(as) {
					r.ob("VALIDATOR-ACCEPT", pr.field, o.Pos, f.has(l), "the validator of %s accepts a value for which %v may not hold", pr.field, l)
				}
			}
		}
		r.ob("VALIDATOR-ACCEPT", pr.field, pr.pos, accepts > 0, "the validator of %s accepts nothing", pr.field)
	}
	r.floor("VALIDATOR", 1)
	r.floor("REJECT", 1)
	r.floor("VALIDATOR-TYPE", 1)
}

// paramPair is one entry of the parameter table.
type paramPair struct {
	key   string
	field string
	typ   types.Type
	fn    *Term
	st    *State
	pos   token.Pos
}

func (w *World) paramPairs(r *R) []paramPair {
	fn := w.P.fn(pTypes, "Params", "ParamSetPairs")
	if fn == nil {
		fn = w.P.fn(pTypes, "*Params", "ParamSetPairs")
	}
	if !r.ob("TABLE", "Params.ParamSetPairs", token.NoPos, fn != nil, "not found") {
		return nil
	}
	run := w.run(fn)
	if !r.ob("TABLE", "Params.ParamSetPairs", fn.Pos(), run.Err == "" && len(run.rets()) == 1, "cannot analyse: %s", run.Err) {
		return nil
	}
	o := run.rets()[0]
	v := o.Vals[0]
	if !r.ob("TABLE", "Params.ParamSetPairs", o.Pos, v.Op == "list", "the parameter table is not a constant list: %v", v.Op) {
		return nil
	}
	var ps []paramPair
	for _, x := range v.Args {
		var key, val, fnT *Term
		switch {
		case x.Op == "call" && hasSuffix(x.Name, ".NewParamSetPair"):
			key, val, fnT = x.Args[0], x.Args[1], x.Args[2]
		case x.Op == "struct":
			key, val, fnT = F(x, "Key"), F(x, "Value"), F(x, "ValidatorFn")
		}
		if !r.ob("TABLE", "Params.ParamSetPairs", o.Pos, key != nil && key.Op == "bytesof" && key.Args[0].Op == "str", "an entry of the parameter table has no constant key: %v", x) {
			continue
		}
		p := stripConv(val)
		if !r.ob("TABLE", "Params.ParamSetPairs", o.Pos, p.Op == "faddr" && p.Args[0] == run.Args[0] || p.Op == "faddr" && derefOf(p.Args[0]) == run.Args[0] || p.Op == "faddr" && p.Args[0].Op == "deref", "the entry %v does not point to a field", key) {
			continue
		}
		name := p.Name
		for i := range name {
			if name[i] == ':' {
				name = name[i+1:]
				break
			}
		}
		ps = append(ps, paramPair{strVal(key.Args[0]), name, ptrElem(p), fnT, o.St, o.Pos})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].key < ps[j].key })
	return ps
}

// applyFn evaluates a function value on arguments.
func (w *World) applyFn(t *Term, args []*Term, st *State) (outs []*Outcome, ok bool) {
	if t == nil {
		return nil, false
	}
	var fn *ssa.Function
	var bs []*Term
	switch t.Op {
	case "func":
		fn = w.P.funcs[t]
	case "closure":
		fn, bs = w.P.closures[t], t.Args
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, false
	}
	in := NewInterp(w.P, inlineAll)
	defer func() {
		if x := recover(); x != nil {
			outs, ok = nil, false
		}
	}()
	s := in.freshState()
	if st != nil {
		s = st.clone()
	}
	outs = in.execFunc(fn, args, bs, s, "")
	w.fns[fn] = true
	return outs, in.Aborted == ""
}

// P29: every parameter has its own key, and readers read their own.
func ruleP29(w *World, r *R) {
	ps := w.typ("Params")
	st := structOf(ps)
	byKey := map[string]string{}
	byField := map[string]string{}
	for _, p := range w.paramPairs(r) {
		r.ob("KEY-DISTINCT", p.key, p.pos, byKey[p.key] == "", "the key %q is used for %s and %s", p.key, byKey[p.key], p.field)
		r.ob("FIELD-DISTINCT", p.field, p.pos, byField[p.field] == "", "%s is stored under %q and %q", p.field, byField[p.field], p.key)
		r.ob("KEY-OF-FIELD", p.field, p.pos, p.key == p.field, "%s is stored under the key %q", p.field, p.key)
		byKey[p.key], byField[p.field] = p.field, p.key
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i).Name()
		r.ob("COVERED", fl, token.NoPos, byField[fl] != "", "%s is missing from the parameter table: it is never stored", fl)
	}
	r.floor("COVERED", 1)
	// single-parameter reads and writes
	for _, pkg := range []string{pKeep, pTypes, pModule} {
		for _, fn := range w.P.fnsOf(pkg) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					cl, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := cl.Common().StaticCallee()
					if g == nil || g.Signature.Recv() == nil || typeName(g.Signature.Recv().Type()) != "github.com/cosmos/cosmos-sdk/x/params/types.Subspace" {
						continue
					}
					as := cl.Common().Args
					switch g.Name() {
					case "Get", "GetIfExists", "Set", "GetRaw", "Has":
					default:
						continue
					}
					for _, site := range w.argSites(fn, ins.Pos(), as[2:], 0) {
						key, at := w.constKey(site.args[0]), site.fn.Name()
						fl := byKey[key]
						if !r.ob("READ-KEY", at, site.pos, fl != "", "%s accesses the parameter %q, which does not exist", at, key) || len(site.args) < 2 {
							continue
						}
						t := ifaceOf(site.args[1])
						if g.Name() != "Set" {
							if pt, ok := t.(*types.Pointer); ok {
								t = pt.Elem()
							}
						}
						want := st.Field(fieldIdx(ps, fl)).Type()
						r.ob("READ-TYPE", at, site.pos, t != nil && types.Identical(t, want), "%s uses %v for the parameter %s of type %v", at, t, fl, want)
					}
				}
			}
		}
	}
	r.floor("READ-KEY", 1)
	// getters named after a parameter read that parameter
	for _, fn := range w.P.fnsOf(pKeep) {
		if fn.Signature.Recv() == nil || len(fn.Params) != 2 || len(fn.Name()) < 4 || fn.Name()[:3] != "Get" {
			continue
		}
		fl := fn.Name()[3:]
		if fl == "FeeCollector" || fl == "DustCollector" {
			fl += "Address"
		}
		if fieldIdx(ps, fl) < 0 {
			continue
		}
		run := w.run(fn)
		r.ob("GETTER", fn.Name(), fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse: %s", run.Err)
		for _, o := range run.rets() {
			v := o.Vals[0]
			want := param(fl)
			ok := w.isParam(v, fl) || v.Op == "addr" && w.isParam(v.Args[0], fl) || v.Op == want.Op && v.Args[0] == want.Args[0] || v == addrOf(mk("pparam", "", types.Typ[types.String], want.Args[0])) || v.Op == "addr" && v.Args[0].Op == "pparam" && v.Args[0].Args[0] == want.Args[0]
			r.ob("GETTER", fn.Name(), o.Pos, ok, "%s returns %v instead of the parameter %s", fn.Name(), v, fl)
		}
	}
	r.floor("GETTER", 1)
	// the defaults are valid
	if fn := w.P.fn(pTypes, "", "DefaultParams"); fn != nil {
		run := w.run(fn)
		r.ob("DEFAULTS", "DefaultParams", fn.Pos(), run.Err == "" && len(run.rets()) > 0, "cannot analyse: %s", run.Err)
		for _, o := range run.rets() {
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i).Name()
				v := F(o.Vals[0], fl)
				bad := v == nil || paramBroken(newFacts(), fl, v)
				r.ob("DEFAULT-VALID", fl, o.Pos, !bad, "the default of %s is %v, which the validation refuses", fl, v)
			}
		}
	}
	r.floor("DEFAULT-VALID", 1)
}

// argSite is a set of arguments as they are given in one place.
type argSite struct {
	fn   *ssa.Function
	pos  token.Pos
	args []ssa.Value
}

// argSites follows arguments that are parameters of the calling function to
// the calls of that function: what a wrapper passes on is decided where the
// wrapper is called.
func (w *World) argSites(fn *ssa.Function, pos token.Pos, args []ssa.Value, depth int) []argSite {
	here := argSite{fn, pos, args}
	at := -1
	if p, ok := args[0].(*ssa.Parameter); ok {
		for i, q := range fn.Params {
			if q == p {
				at = i
			}
		}
	}
	if at < 0 || depth > 4 {
		return []argSite{here}
	}
	var out []argSite
	for _, u := range w.users(fn) {
		for _, b := range u.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(ssa.CallInstruction)
				if !ok || cl.Common().StaticCallee() != fn {
					continue
				}
				var sub []ssa.Value
				for _, a := range args {
					for i, q := range fn.Params {
						v := a
						if mi, ok := a.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						if v == ssa.Value(q) {
							a = cl.Common().Args[i]
							break
						}
					}
					sub = append(sub, a)
				}
				out = append(out, w.argSites(u, ins.Pos(), sub, depth+1)...)
			}
		}
	}
	return out
}

// ifaceOf is the type of the value converted to an interface.
func ifaceOf(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v.Type()
		}
	}
}

// constKey is the constant store key held by a value.
func (w *World) constKey(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil {
			t := w.globalT(g.Pkg.Pkg.Path(), g.Name())
			if t.Op == "bytesof" && t.Args[0].Op == "str" {
				return strVal(t.Args[0])
			}
		}
	}
	if c, ok := v.(*ssa.Convert); ok {
		if k, ok := c.X.(*ssa.Const); ok && k.Value != nil {
			return strVal(constTerm(k))
		}
	}
	return ""
}

func strVal(t *Term) string { return t.Name }

// fnsOf lists the functions and methods of a package, including closures.
func (p *Program) fnsOf(pkg string) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.AllFns {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == pkg {
			r = append(r, fn)
		}
	}
	return r
}
