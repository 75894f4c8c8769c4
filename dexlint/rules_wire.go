package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// P36: the application runs the module, with the right keeper and authority.

const pApp = "defund/app"

// structOn reads a struct by the names of its fields, through interfaces and
// references written out.
func structOn(t *Term) map[string]*Term {
	for t != nil && (t.Op == "iface" || t.Op == "ref") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if t == nil || t.Op != "struct" {
		return nil
	}
	st := structOf(t.Typ)
	if st == nil {
		return nil
	}
	m := map[string]*Term{}
	for i := 0; i < st.NumFields() && i < len(t.Args); i++ {
		m[st.Field(i).Name()] = t.Args[i]
	}
	return m
}

// times counts a text in a list of constants; known says that the list is one.
func times(list *Term, s string) (n int, known bool) {
	if list == nil || list.Op != "list" {
		return 0, false
	}
	for _, x := range list.Args {
		if x.Op != "str" {
			return 0, false
		}
		if strVal(x) == s {
			n++
		}
	}
	return n, true
}

func ruleP36(w *World, r *R) {
	name := ""
	if c := w.constOf("ModuleName"); c != nil {
		name = strVal(c)
	}
	am := w.P.namedType(pModule, "AppModule")
	if run := w.run(w.method(am, "Name")); r.ob("NAME", "AppModule.Name", token.NoPos, len(run.rets()) == 1, "the name of the module cannot be told") {
		v := run.rets()[0].Vals[0]
		r.ob("NAME", "AppModule.Name", run.rets()[0].Pos, v == constStr(name) && name != "", "the module calls itself %v", v)
	}
	w.appConfigured(name, r)
	w.appBuilt(r)
	w.moduleProvided(r)
	w.moduleServes(am, r)
	w.genesisCoded(am, r)
}

// appConfigured: the configuration of the application names the module where
// it has to be.
func (w *World) appConfigured(name string, r *R) {
	sp := w.P.SSA[pApp]
	if !r.ob("CONFIG", "app", token.NoPos, sp != nil, "the application is not loaded") {
		return
	}
	run := w.run(sp.Func("init"), "init", "init#1", "init#2", "init#3")
	cfgs := 0
	for _, o := range run.rets() {
		evs := o.Events()
		wrapped := map[*Term]*Event{}
		for _, ev := range evs {
			if ev.Kind == "call" && hasSuffix(ev.Name, "core/appconfig.WrapAny") && ev.Res != nil {
				wrapped[ev.Res] = ev
			}
		}
		for _, ev := range evs {
			if ev.Kind != "call" || !hasSuffix(ev.Name, "core/appconfig.Compose") || len(ev.Snap) != 1 {
				continue
			}
			cfgs++
			mods := structOn(ev.Snap[0])["Modules"]
			if !r.ob("CONFIG", "app", ev.Pos, mods != nil && mods.Op == "list", "the modules of the application cannot be told") {
				continue
			}
			n := map[string]int{}
			for _, m := range mods.Args {
				fs := structOn(m)
				if !r.ob("CONFIG", "app", ev.Pos, fs != nil && fs["Name"].Op == "str" && wrapped[fs["Config"]] != nil, "a module of the application cannot be told: %v", m) {
					continue
				}
				mod := strVal(fs["Name"])
				n[mod]++
				we := wrapped[fs["Config"]]
				cfg := structOn(we.Snap[0])
				switch mod {
				case "runtime":
					for _, l := range []string{"BeginBlockers", "EndBlockers", "InitGenesis"} {
						k, known := times(cfg[l], name)
						r.ob("RUNS", l, we.Pos, known && k == 1, "the module is %d times in %s", k, l)
					}
					if x := cfg["ExportGenesis"]; !emptyList(x) {
						k, known := times(x, name)
						r.ob("RUNS", "ExportGenesis", we.Pos, known && k == 1, "the module is %d times in ExportGenesis", k)
					}
				case "auth":
					accs := 0
					perms := cfg["ModuleAccountPermissions"]
					if perms != nil && perms.Op == "list" {
						for _, p := range perms.Args {
							pf := structOn(p)
							if pf == nil || pf["Account"] != constStr(name) {
								continue
							}
							accs++
							mint, _ := times(pf["Permissions"], "minter")
							burn, _ := times(pf["Permissions"], "burner")
							r.ob("ACCOUNT", name, we.Pos, mint > 0 && burn > 0, "the module account cannot mint and burn: %v", pf["Permissions"])
							stake, _ := times(pf["Permissions"], "staking")
							r.ob("ACCOUNT", name, we.Pos, stake == 0, "the module account can stake")
						}
					}
					r.ob("ACCOUNT", name, we.Pos, accs == 1, "the module has %d accounts", accs)
				case name:
					own := we.Snap[0].contains(func(t *Term) bool { return t.Typ != nil && typeName(t.Typ) == "defund/api/defund/dex/module.Module" })
					r.ob("CONFIG", name, we.Pos, own, "the module is configured with %v", we.Snap[0])
					r.ob("AUTHORITY", "app", we.Pos, cfg == nil || cfg["Authority"] == nil || cfg["Authority"] == constStr("") || cfg["Authority"].Op == "zero", "the authority is not the governance account: %v", cfg["Authority"])
				case "bank":
					r.ob("ACCOUNT", "bank", we.Pos, cfg != nil, "the bank's configuration cannot be told")
				}
			}
			r.ob("CONFIG", name, ev.Pos, n[name] == 1, "the module is %d times in the application", n[name])
			for _, m := range []string{"runtime", "auth", "bank", "params", "gov", "crisis"} {
				r.ob("CONFIG", m, ev.Pos, n[m] == 1, "the application has %d %s modules", n[m], m)
			}
		}
	}
	r.ob("CONFIG", "app", token.NoPos, cfgs > 0 && run.Err == "", "the application's configuration is not found: %s", run.Err)
	r.floor("RUNS", 3)
	r.floor("ACCOUNT", 3)
}

// appBuilt: building the application registers the invariants and hands out the
// module's keeper.
func (w *World) appBuilt(r *R) {
	fn := w.P.fn(pApp, "", "New")
	if !r.ob("BUILT", "app.New", token.NoPos, fn != nil, "app.New not found") {
		return
	}
	always := func(b *ssa.BasicBlock) bool {
		for _, x := range fn.Blocks {
			if len(x.Instrs) == 0 {
				continue
			}
			if _, ret := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ret && x != fn.Recover && !b.Dominates(x) {
				return false
			}
		}
		return true
	}
	fieldOf := func(v ssa.Value) string {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.FieldAddr:
				return structOf(deref(x.X.Type())).Field(x.Field).Name()
			default:
				return ""
			}
		}
	}
	invs, injected, own := 0, 0, false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil {
					continue
				}
				if hasSuffix(f.String(), "types/module.Manager).RegisterInvariants") && always(b) && fieldOf(x.Call.Args[1]) == "CrisisKeeper" {
					invs++
				}
			case *ssa.MakeInterface:
				if fieldOf(x) == "DexKeeper" {
					for _, ref := range *x.Referrers() {
						if _, ok := ref.(*ssa.Store); ok && always(b) {
							injected++
						}
					}
				}
			case *ssa.Store:
				own = own || fieldOf(x.Addr) == "DexKeeper"
			}
		}
	}
	// a helper may do it
	for g := range nested(fn) {
		if g == fn {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.Call); ok {
					if f := x.Call.StaticCallee(); f != nil && hasSuffix(f.String(), "types/module.Manager).RegisterInvariants") {
						invs++
					}
				}
			}
		}
	}
	r.ob("INVARIANTS-ON", "app.New", fn.Pos(), invs > 0, "the invariants are not registered with the crisis module")
	r.ob("SAME-KEEPER", "app.New", fn.Pos(), injected > 0 && !own, "the keeper the application hands out is not the module's")
}

// moduleProvided: the keeper is made of what the application provides, and the
// module uses that keeper.
func (w *World) moduleProvided(r *R) {
	run := w.run(w.P.fn(pModule, "", "ProvideModule"))
	at := "ProvideModule"
	if !r.ob("PROVIDED", at, token.NoPos, run.Err == "" && len(run.Args) == 1, "%s", run.Err) {
		return
	}
	in := run.Args[0]
	cfg := func(name string) *Term {
		c := F(in, "Config")
		if c == nil {
			return nil
		}
		return F(mk("deref", "", ptrElemOf(c.Typ), c), name)
	}
	gov := mk("addrstr", "", nil, callT("github.com/cosmos/cosmos-sdk/x/auth/types.NewModuleAddress", constStr("gov")))
	set := cfg("Authority")
	for _, o := range run.rets() {
		f := o.Facts()
		out := structOn(o.Vals[0])
		k := structOn(out["DexKeeper"])
		m := structOn(out["Module"])
		if !r.ob("PROVIDED", at, o.Pos, k != nil && m != nil && set != nil, "what the module provides cannot be told: %v", o.Vals[0]) {
			continue
		}
		r.ob("SAME-KEEPER", at, o.Pos, m["keeper"] == out["DexKeeper"], "the module runs with another keeper than it provides")
		auth := k["authority"]
		switch {
		case f.has(eqL(mkLen(set), ci(0))):
			r.ob("AUTHORITY", at, o.Pos, auth == gov, "without one configured the authority is %v", auth)
		case f.contra(eqL(mkLen(set), ci(0))):
			want := mk("addrstr", "", nil, callT("github.com/cosmos/cosmos-sdk/x/auth/types.NewModuleAddressOrBech32Address", set))
			r.ob("AUTHORITY", at, o.Pos, auth == want, "the configured authority is not used: %v", auth)
		default:
			r.ob("AUTHORITY", at, o.Pos, false, "the authority does not depend on the configuration")
		}
		for kf, inf := range map[string]string{"cdc": "Cdc", "storeService": "StoreService", "accountKeeper": "AccountKeeper", "bankKeeper": "BankKeeper", "logger": "Logger"} {
			r.ob("PROVIDED", at+" "+kf, o.Pos, k[kf] != nil && k[kf] == F(in, inf), "%s of the keeper is %v", kf, k[kf])
		}
		ps := k["paramSpace"]
		space := F(in, "ParamSpace")
		has := Lit{callT("("+pParams+".Subspace).HasKeyTable", space), true}
		switch {
		case f.has(has):
			r.ob("PARAM-TABLE", at, o.Pos, ps == space, "the parameters are kept in %v", ps)
		default:
			own := ps != nil && ps.Op == "call" && ps.Name == "("+pParams+".Subspace).WithKeyTable" && ps.Args[0] == space
			r.ob("PARAM-TABLE", at, o.Pos, own && f.contra(has), "the parameters are kept in %v", ps)
		}
	}
	r.floor("AUTHORITY", 2)
}

const pParams = "github.com/cosmos/cosmos-sdk/x/params/types"

func ptrElemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// moduleServes: messages and queries reach the module's keeper, and all
// messages can be decoded.
func (w *World) moduleServes(am types.Type, r *R) {
	run := w.run(w.method(am, "RegisterServices"))
	if r.ob("SERVES", "RegisterServices", token.NoPos, run.Err == "" && len(run.rets()) > 0, "%s", run.Err) {
		for _, o := range run.rets() {
			keeper := F(run.Args[0], "keeper")
			n := map[string]int{}
			srv := map[string]*Term{}
			for _, ev := range o.Events() {
				if ev.Kind == "invoke" && (hasSuffix(ev.Name, "Configurator.MsgServer") || hasSuffix(ev.Name, "Configurator.QueryServer")) && ev.Args[0] == run.Args[1] {
					srv[ev.Name[len(ev.Name)-9:]] = ev.Res
				}
				if ev.Kind != "invoke" || !hasSuffix(ev.Name, "Server.RegisterService") {
					continue
				}
				desc := ev.Args[1]
				impl := ev.Snap[2]
				switch {
				case desc.Op == "global" && hasSuffix(desc.Name, "types._Msg_serviceDesc"):
					n["msg"]++
					own := structOn(impl)["Keeper"] == keeper && ev.Args[0] == srv["MsgServer"]
					r.ob("SERVES", "messages", ev.Pos, own, "messages are not served by the module's keeper: %v", impl)
				case desc.Op == "global" && hasSuffix(desc.Name, "types._Query_serviceDesc"):
					n["query"]++
					own := impl.Op == "iface" && len(impl.Args) == 1 && (impl.Args[0] == keeper || impl.Args[0].Op == "ref" && impl.Args[0].Args[0] == keeper) && ev.Args[0] == srv["eryServer"]
					r.ob("SERVES", "queries", ev.Pos, own, "queries are not served by the module's keeper: %v", impl)
				}
			}
			r.ob("SERVES", "RegisterServices", o.Pos, n["msg"] == 1 && n["query"] == 1, "the message service is registered %d times, the query service %d times", n["msg"], n["query"])
		}
	}
	run = w.run(w.method(am, "RegisterInterfaces"))
	if r.ob("DECODES", "RegisterInterfaces", token.NoPos, run.Err == "" && len(run.rets()) > 0, "%s", run.Err) {
		for _, o := range run.rets() {
			done := 0
			for _, ev := range o.Events() {
				if ev.Kind == "call" && hasSuffix(ev.Name, "types/msgservice.RegisterMsgServiceDesc") && ev.Args[0] == run.Args[len(run.Args)-1] && ev.Args[1].Op == "global" && hasSuffix(ev.Args[1].Name, "types._Msg_serviceDesc") {
					done++
				}
			}
			r.ob("DECODES", "RegisterInterfaces", o.Pos, done > 0, "the messages are not registered for decoding")
		}
	}
	for _, s := range [][2]string{{"_Msg_serviceDesc", "MsgServer"}, {"_Query_serviceDesc", "QueryServer"}} {
		w.handlersFit(s[0], s[1], r)
	}
}

// handlersFit: each method of a service is handled by the server's method of
// that name.
func (w *World) handlersFit(desc, iface string, r *R) {
	sp := w.P.SSA[pTypes]
	it, _ := sp.Pkg.Scope().Lookup(iface).Type().Underlying().(*types.Interface)
	d := structOn(w.P.globals[mk("global", pTypes+"."+desc, nil)])
	methods := d["Methods"]
	if !r.ob("HANDLERS", desc, token.NoPos, it != nil && methods != nil && methods.Op == "list", "the methods of the service cannot be told: %v", methods) {
		return
	}
	seen := map[string]int{}
	for _, m := range methods.Args {
		fs := structOn(m)
		if !r.ob("HANDLERS", desc, token.NoPos, fs != nil && fs["MethodName"].Op == "str" && w.P.funcs[fs["Handler"]] != nil, "a method of the service cannot be told: %v", m) {
			continue
		}
		name := strVal(fs["MethodName"])
		seen[name]++
		h := w.P.funcs[fs["Handler"]]
		calls := map[string]bool{}
		for g := range nested(h) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() && types.Identical(c.Common().Value.Type().Underlying(), it) {
						calls[c.Common().Method.Name()] = true
					}
				}
			}
		}
		r.ob("HANDLERS", desc+" "+name, h.Pos(), len(calls) == 1 && calls[name], "%s is handled by %v", name, keysOfS(calls))
	}
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		r.ob("HANDLERS", desc+" "+n, token.NoPos, seen[n] == 1, "%s is %d times in the service", n, seen[n])
	}
}

// genesisCoded: what is decoded is imported, what is exported is encoded, and
// validation judges what is decoded.
func (w *World) genesisCoded(am types.Type, r *R) {
	invokes := func(evs []*Event, name string) (es []*Event) {
		for _, ev := range evs {
			if ev.Kind == "invoke" && hasSuffix(ev.Name, "codec.JSONCodec."+name) {
				es = append(es, ev)
			}
		}
		return
	}
	calls := func(evs []*Event, name string) (es []*Event) {
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Name == name {
				es = append(es, ev)
			}
		}
		return
	}
	each := func(method, opaque string, check func(x *FnRun, o *Outcome) (bool, string)) {
		x := w.run(w.method(am, method), "!"+opaque)
		if !r.ob("GENESIS", method, token.NoPos, x.Err == "" && len(x.rets()) > 0, "%s", x.Err) {
			return
		}
		for _, o := range x.rets() {
			ok, why := check(x, o)
			r.ob("GENESIS", method, o.Pos, ok, "%s", why)
		}
	}
	param := func(x *FnRun, typ string) *Term {
		for _, a := range x.Args[1:] {
			if a.Typ != nil && hasSuffix(typeName(a.Typ), typ) {
				return a
			}
		}
		return nil
	}
	initFn, exportFn := pModule+".InitGenesis", pModule+".ExportGenesis"
	each("InitGenesis", initFn, func(x *FnRun, o *Outcome) (bool, string) {
		dec, imp := append(invokes(o.Events(), "MustUnmarshalJSON"), invokes(o.Events(), "UnmarshalJSON")...), calls(o.Events(), initFn)
		ok := len(dec) == 1 && len(imp) == 1 && dec[0].Args[1] == param(x, "RawMessage") && imp[0].Args[1] == F(x.Args[0], "keeper")
		ok = ok && indexOf(o.Events(), dec[0]) < indexOf(o.Events(), imp[0]) && imp[0].Args[2].Op == "havoc" && samePlace(imp[0].Args[2], dec[0])
		return ok, "what is imported is not what was decoded"
	})
	each("ExportGenesis", exportFn, func(x *FnRun, o *Outcome) (bool, string) {
		enc, exp := invokes(o.Events(), "MustMarshalJSON"), calls(o.Events(), exportFn)
		ok := len(enc) == 1 && len(exp) == 1 && exp[0].Args[1] == F(x.Args[0], "keeper") && o.Vals[0] == enc[0].Res
		ok = ok && enc[0].Args[1].Op == "iface" && enc[0].Args[1].Args[0] == exp[0].Res
		return ok, "what is encoded is not what was exported"
	})
	each("DefaultGenesis", pTypes+".DefaultGenesis", func(x *FnRun, o *Outcome) (bool, string) {
		enc, def := invokes(o.Events(), "MustMarshalJSON"), calls(o.Events(), pTypes+".DefaultGenesis")
		ok := len(enc) == 1 && len(def) == 1 && o.Vals[0] == enc[0].Res && enc[0].Args[1].Op == "iface" && enc[0].Args[1].Args[0] == def[0].Res
		return ok, "the default genesis is not the module's"
	})
	validate := "(" + pTypes + ".GenesisState).Validate"
	each("ValidateGenesis", validate, func(x *FnRun, o *Outcome) (bool, string) {
		dec, val := invokes(o.Events(), "UnmarshalJSON"), calls(o.Events(), validate)
		if len(dec) != 1 || dec[0].Args[1] != param(x, "RawMessage") {
			return false, "the genesis given is not decoded"
		}
		f := o.Facts()
		if f.contra(isNilL(dec[0].Res)) {
			return !o.Success(), "a genesis that does not decode is accepted"
		}
		ok := f.has(isNilL(dec[0].Res)) && len(val) == 1 && samePlace(val[0].Args[0], dec[0])
		if ok && o.Vals[0] != val[0].Res {
			ok = f.has(isNilL(val[0].Res)) && o.Vals[0].Op == "nil" || f.contra(isNilL(val[0].Res)) && !o.Success()
		}
		return ok, "the result is not that of the validation of what was decoded"
	})
	r.floor("GENESIS", 8)
}

// samePlace: a value is what a call left in the object it was given.
func samePlace(v *Term, ev *Event) bool {
	return v != nil && v.Op == "havoc" && ev.Res != nil && ev.Res.Op == "call" && ev.Res.Name == ev.Name+"@"+v.Name
}

func keysOfS(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	return
}

// nested lists a function, the functions written in it and those of its package
// it calls.
func nested(fn *ssa.Function) map[*ssa.Function]bool {
	all := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || all[f] || f.Pkg != fn.Pkg {
			return
		}
		all[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
			}
		}
	}
	visit(fn)
	return all
}
