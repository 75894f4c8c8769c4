package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FnRun is the stand-alone analysis of one function: every parameter is an
// arbitrary value of its type.
type FnRun struct {
	Fn   *ssa.Function
	In   *Interp
	Args []*Term
	Outs []*Outcome
	Err  string
}

var fnRuns = map[string]*FnRun{}

// inlineAll interprets every repository function reached.
func inlineAll(fn *ssa.Function) int {
	if fn.Name() == "String" && fn.Signature.Recv() != nil {
		return OpaquePure
	}
	return Inline
}

// run analyses a function stand-alone; opaque lists callees (by name) kept
// uninterpreted.
func (w *World) run(fn *ssa.Function, opaque ...string) *FnRun {
	if fn == nil {
		return &FnRun{Err: "function not found"}
	}
	k := fn.String() + "|" + strings.Join(opaque, ",")
	if r, ok := fnRuns[k]; ok {
		return r
	}
	pol := func(g *ssa.Function) int {
		for _, o := range opaque {
			res := OpaquePure
			if strings.HasPrefix(o, "!") { // keep the call as an event
				o, res = o[1:], OpaqueEvent
			}
			if g.Name() == o || strings.HasSuffix(g.String(), o) {
				return res
			}
		}
		return inlineAll(g)
	}
	r := &FnRun{Fn: fn, In: NewInterp(w.P, pol)}
	fnRuns[k] = r
	for _, o := range opaque {
		if o == "+iter" {
			r.In.IterEv = true
		}
	}
	for i, p := range fn.Params {
		r.Args = append(r.Args, entryParam(p, i))
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Err = fmt.Sprint("analysis panicked: ", p)
			}
		}()
		r.Outs = r.In.RunWith(fn, r.Args, r.In.freshState())
		if r.In.Aborted != "" {
			r.Err = r.In.Aborted
		}
	}()
	for f := range r.In.Analysed {
		w.fns[f] = true
	}
	return r
}

// rets are the outcomes that return normally.
func (x *FnRun) rets() []*Outcome {
	var r []*Outcome
	for _, o := range x.Outs {
		if o.Kind == "ret" {
			r = append(r, o)
		}
	}
	return r
}

// units of a stand-alone run, including loop bodies.
func (x *FnRun) units() []*Unit {
	e := &Entry{Name: x.Fn.Name(), Kind: "fn", Fn: x.Fn, In: x.In}
	var us []*Unit
	seen := map[string]bool{}
	var visit func(u *Unit)
	visit = func(u *Unit) {
		us = append(us, u)
		for _, ev := range u.Events {
			if ev.Kind != "loop" {
				continue
			}
			for _, b := range ev.Bodies {
				k := fmt.Sprintf("%s|%x|%s", ev.Loop, b.hash, factKey(b.Facts))
				if seen[k] {
					continue
				}
				seen[k] = true
				visit(&Unit{Entry: e, Parent: u, Loop: ev, Events: b.Events, Facts: b.Facts})
			}
		}
	}
	for _, o := range x.Outs {
		if o.Kind == "ret" {
			visit(&Unit{Entry: e, Events: o.Events(), Facts: o.Facts(), Out: o})
		}
	}
	return us
}

func showFn(w *World, args []string) {
	pkg := map[string]string{"amm": pAmm, "types": pTypes, "keeper": pKeep, "module": pModule, "dtypes": "defund/types", "model": pModel, "cli": "defund/x/dex/client/cli", "app": "defund/app"}[args[0]]
	fn := w.P.fn(pkg, args[1], args[2])
	r := w.run(fn, args[3:]...)
	fmt.Println("err:", r.Err, "outs", len(r.Outs))
	for i, o := range r.Outs {
		fmt.Println("== outcome", i, o.Kind)
		for _, f := range o.Facts().list() {
			fmt.Println("   fact", clip(f))
		}
		for _, ev := range o.Events() {
			showEv("   ", ev)
		}
		for k, v := range o.St.mem {
			if os.Getenv("DEXLINT_MEM") != "" && k.Op != "global" {
				fmt.Println("   MEM", clip(k.String()), "=", clip(v.Full()))
			}
		}
		fmt.Println("   RET")
		for _, v := range o.Vals {
			fmt.Println("      ", clip(v.Full()))
		}
	}
}

func showEv(ind string, ev *Event) {
	var as []string
	for _, a := range ev.Args {
		as = append(as, clip(a.str(12)))
	}
	for _, a := range ev.Snap {
		as = append(as, "SNAP "+clip(a.str(12)))
	}
	fmt.Println(ind+"EV", ev.Kind, ev.Name, strings.Join(as, " ; "))
	if os.Getenv("DEXLINT_MEM") != "" {
		for _, m := range sortedMus(ev) {
			fmt.Println(ind+"  MU", clip(m.Full()), "from", clip(fmt.Sprint(ev.Mus[m].Init)))
		}
	}
	for i, b := range ev.Bodies {
		fmt.Println(ind+"  body", i)
		if os.Getenv("DEXLINT_MEM") != "" {
			for _, m := range sortedMus(ev) {
				if len(ev.Mus[m].Backs) == len(ev.Bodies) {
					fmt.Println(ind+"    BACK", clip(m.Full()), "=", clip(fmt.Sprint(ev.Mus[m].Backs[i].Val)))
				}
			}
		}
		for _, f := range b.Facts.list() {
			if strings.Contains(ev.Facts.String(), f) {
				continue
			}
			fmt.Println(ind+"    fact", clip(f))
		}
		for _, e2 := range b.Events {
			showEv(ind+"    ", e2)
		}
	}
}
