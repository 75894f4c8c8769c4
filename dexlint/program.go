package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded, type-checked repository in SSA form.
type Program struct {
	Pkgs       []*packages.Package
	Prog       *ssa.Program
	SSA        map[string]*ssa.Package
	funcs      map[*Term]*ssa.Function
	closures   map[*Term]*ssa.Function
	globals    map[*Term]*Term
	pureInvoke map[string]bool
	typCache   map[string]types.Type
	Root       string
	AllFns     []*ssa.Function
}

func repoRoot() string {
	if r := os.Getenv("DEXLINT_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func loadProgram() (*Program, error) {
	root := repoRoot()
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
		packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule
	var ps []*packages.Package
	for n := len(modelFiles); n > 0; n-- {
		cfg := &packages.Config{Mode: mode, Dir: root, Tests: false, Overlay: map[string][]byte{}}
		for _, f := range modelFiles[:n] {
			cfg.Overlay[root+"/"+modelDir+"/"+f.name] = []byte(f.src)
		}
		var err error
		if ps, err = packages.Load(cfg, "./x/...", "./types/...", "./app/...", "./"+modelDir); err != nil {
			return nil, err
		}
		fits := true
		for _, pk := range ps {
			fits = fits && (pk.PkgPath != pModel || len(pk.Errors) == 0)
		}
		if fits {
			break
		}
	}
	p := &Program{SSA: map[string]*ssa.Package{}, funcs: map[*Term]*ssa.Function{}, closures: map[*Term]*ssa.Function{},
		globals: map[*Term]*Term{}, pureInvoke: map[string]bool{}, typCache: map[string]types.Type{}, Root: root}
	for _, pk := range ps {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		if pk.IllTyped {
			return nil, fmt.Errorf("package %s is ill typed", pk.PkgPath)
		}
		p.Pkgs = append(p.Pkgs, pk)
	}
	prog, spkgs := ssautil.Packages(p.Pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for _, sp := range spkgs {
		if sp != nil {
			p.SSA[sp.Pkg.Path()] = sp
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inRepoFn(fn) && len(fn.Blocks) > 0 {
			p.AllFns = append(p.AllFns, fn)
		}
	}
	sort.Slice(p.AllFns, func(i, j int) bool { return p.AllFns[i].String() < p.AllFns[j].String() })
	return p, nil
}

func (p *Program) funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) funcTerm(fn *ssa.Function) *Term {
	t := mk("func", fn.String(), fn.Type())
	p.funcs[t] = fn
	return t
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return fnPkgPath(fn.Origin())
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

func (p *Program) inRepoFn(fn *ssa.Function) bool {
	path := fnPkgPath(fn)
	if path == "" { // wrappers/thunks/bounds of repo methods
		return fn.Synthetic != "" && len(fn.Blocks) > 0
	}
	return path == "defund" || strings.HasPrefix(path, "defund/")
}

// fn finds a package-level function or method: "pkg.Name", "pkg.(T).Name" or "pkg.(*T).Name".
func (p *Program) fn(pkg, recv, name string) *ssa.Function {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	if recv == "" {
		if i := strings.Index(name, "$"); i > 0 { // a closure
			if f := sp.Func(name[:i]); f != nil {
				for _, a := range f.AnonFuncs {
					if a.Name() == name {
						return a
					}
				}
			}
			return nil
		}
		return sp.Func(name)
	}
	ptr := strings.HasPrefix(recv, "*")
	tn := strings.TrimPrefix(recv, "*")
	m, ok := sp.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	t := m.Type()
	for _, try := range []bool{ptr, !ptr} {
		tt := t
		if try {
			tt = types.NewPointer(t)
		}
		sel := types.NewMethodSet(tt).Lookup(sp.Pkg, name)
		if sel == nil {
			continue
		}
		if f := p.Prog.MethodValue(sel); f != nil {
			// prefer the declared method over a wrapper
			if obj, ok := sel.Obj().(*types.Func); ok {
				if d := p.Prog.FuncValue(obj); d != nil {
					return d
				}
			}
			return f
		}
	}
	return nil
}

func (p *Program) keeperFn(name string) *ssa.Function { return p.fn(pKeep, "Keeper", name) }

func (p *Program) typeByName(name string) types.Type {
	if t, ok := p.typCache[name]; ok {
		return t
	}
	ptr := strings.HasPrefix(name, "*")
	n := strings.TrimPrefix(name, "*")
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return nil
	}
	var res types.Type
	if sp := p.SSA[n[:i]]; sp != nil {
		if m, ok := sp.Members[n[i+1:]].(*ssa.Type); ok {
			res = m.Type()
			if ptr {
				res = types.NewPointer(res)
			}
		}
	}
	p.typCache[name] = res
	return res
}

// structType returns the named struct type of a package.
func (p *Program) namedType(pkg, name string) types.Type {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	if m, ok := sp.Members[name].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}

// evalGlobals interprets package initialisers to learn the value of
// package-level variables that are never reassigned.
func (p *Program) evalGlobals(pkgs ...string) error {
	assigned := map[string]int{}
	for _, fn := range p.AllFns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if fn.Name() != "init" || fn.Synthetic == "" {
							assigned[g.RelString(nil)]++
						}
					}
				}
			}
		}
	}
	for _, pkg := range pkgs {
		sp := p.SSA[pkg]
		if sp == nil {
			return fmt.Errorf("package %s not loaded", pkg)
		}
		init := sp.Func("init")
		in := NewInterp(p, func(fn *ssa.Function) int {
			if strings.HasPrefix(fn.Name(), "init") {
				return OpaquePure
			}
			return Inline
		})
		st := in.freshState()
		st.mem[mk("global", pkg+".init$guard", nil)] = constBool(false)
		outs := in.RunWith(init, nil, st)
		if in.Aborted != "" {
			return fmt.Errorf("init of %s: %s", pkg, in.Aborted)
		}
		n := 0
		for _, o := range outs {
			if o.Kind != "ret" {
				continue
			}
			n++
			for k, v := range o.St.mem {
				if k.Op == "global" {
					if prev, ok := p.globals[k]; ok && prev != v {
						p.globals[k] = mk("gval", k.Name, v.Typ)
						continue
					}
					p.globals[k] = v
				}
			}
		}
		if n == 0 {
			return fmt.Errorf("init of %s has no normal outcome", pkg)
		}
	}
	for g := range assigned {
		delete(p.globals, mk("global", g, nil))
	}
	return nil
}
