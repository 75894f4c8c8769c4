package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P48: amounts that are too large to compute are cut off and stop nothing. What
// divides by a price or a reserve runs under a guard that turns exactly the
// panics of the number library about size into the fallback, and lets all others
// through.

// sizePanics are what the number library panics with when a number does not fit,
// otherPanics some of what it panics with otherwise.
var (
	sizePanics  = []string{"Int overflow", "NewIntFromBigInt() out of bound"}
	otherPanics = []string{"Division by zero", "decimal precision", ""}
)

type guarded struct {
	at      string
	fn      *ssa.Function
	divisor func(t *Term) bool
}

func (w *World) guardedFns() []guarded {
	price := func(t *Term) bool {
		return t.Op == "param" && t.Name == "price" || t.Op == "field" && t.Name == "Price"
	}
	any := func(t *Term) bool { return t.Op == "param" }
	var gs []guarded
	for _, tp := range []string{"BasicPool", "RangedPool"} {
		for _, m := range []string{"BuyAmountOver", "BuyAmountTo"} {
			gs = append(gs, guarded{tp + "." + m, w.P.fn(pAmm, "*"+tp, m), price})
		}
	}
	return append(gs, guarded{"Deposit", w.P.fn(pAmm, "", "Deposit"), any}, guarded{"Withdraw", w.P.fn(pAmm, "", "Withdraw"), any},
		guarded{"NewUserOrder", w.P.fn(pTypes, "", "NewUserOrder"), price})
}

func ruleP48(w *World, r *R) {
	for _, g := range w.guardedFns() {
		x := w.run(g.fn)
		if !r.ob("GUARD", g.at, g.fn.Pos(), x.Err == "" && len(x.Outs) > 0, "not analysed: %s", x.Err) {
			continue
		}
		caught := map[*Outcome]*Term{}
		for _, o := range x.Outs {
			if p := implicitIn(o); p != nil {
				caught[o] = p
			}
		}
		for _, o := range x.rets() {
			if caught[o] != nil || !w.divides(o, g.divisor) {
				continue
			}
			found := false
			for c, p := range caught {
				found = found || c.Kind == "ret" && reachedFrom(c, p, o)
			}
			r.ob("GUARD", g.at, o.Pos, found, "divides without a guard against amounts that are too large")
		}
		try := func(rule, msg string, str bool, kind string) {
			n := 0
			for c, p := range caught {
				if !happens(c.Facts(), p, msg, str) || corruptAddress(c) {
					continue
				}
				n++
				if c.Kind == "ret" && kind == "ret" {
					w.fallback(r, g, x, c)
				}
				r.ob(rule, g.at, c.Pos, c.Kind == kind, "the panic %q ends as %s", msg, c.Kind)
				if kind == "panic" && c.Kind == kind {
					r.ob(rule, g.at, c.Pos, len(c.Vals) == 1 && c.Vals[0].containsTerm(p), "another panic is passed on")
				}
			}
			r.ob(rule, g.at, g.fn.Pos(), n > 0, "nothing is done about the panic %q", msg)
		}
		for _, m := range sizePanics {
			try("CUT-OFF", m, true, "ret")
		}
		for _, m := range otherPanics {
			try("PASSED-ON", m, m != "", "panic")
		}
		for f := range x.In.Analysed {
			w.unrecognised(r, g, f)
		}
	}
	r.floor("GUARD", 7)
	r.floor("CUT-OFF", 14)
	r.floor("PASSED-ON", 14)
	r.floor("FALLBACK", 14)
}

// implicitIn is the panic out of a computation that this path has recovered from.
func implicitIn(o *Outcome) *Term {
	var res *Term
	find := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "nonnil" && strings.HasSuffix(x.Name, ":implicit") {
				res = x
			}
			return res == nil
		})
	}
	for a := range o.Facts().m {
		find(a)
	}
	for _, v := range o.Vals {
		if v != nil {
			find(v)
		}
	}
	return res
}

// divides: a result is a quotient.
func (w *World) divides(o *Outcome, divisor func(t *Term) bool) bool {
	seen := map[*Term]bool{}
	var look func(t *Term, d int) bool
	look = func(t *Term, d int) bool {
		if t == nil || d > 4 || seen[t] {
			return false
		}
		seen[t] = true
		found := t.contains(func(x *Term) bool {
			return x.Op == "call" && strings.HasPrefix(x.Name[strings.LastIndex(x.Name, ".")+1:], "Quo") && len(x.Args) == 2 && x.Args[1].contains(divisor)
		})
		if found {
			return true
		}
		if v := o.St.mem[t]; v != nil {
			return look(v, d+1)
		}
		for _, a := range t.Args {
			if look(a, d+1) {
				return true
			}
		}
		return false
	}
	for _, v := range o.Vals {
		if look(v, 0) {
			return true
		}
	}
	return false
}

// fallback: what is too large to compute is the most there can be, or nothing.
func (w *World) fallback(r *R, g guarded, x *FnRun, o *Outcome) {
	switch g.at {
	case "Deposit", "Withdraw":
		for i, v := range o.Vals {
			r.ob("FALLBACK", g.at, o.Pos, v == ci(0), "result %d is %v when it is too large to compute", i, v)
		}
	case "NewUserOrder":
		v := o.St.mem[o.Vals[0]]
		if v != nil {
			v = F(v, "BaseOrder")
		}
		var amt *Term
		if v != nil && o.St.mem[v] != nil {
			amt = F(o.St.mem[v], "Amount")
		} else if v != nil {
			amt = F(v, "Amount")
		}
		r.ob("FALLBACK", g.at, o.Pos, amt == F(x.Args[0], "OpenAmount"), "the amount is %v when it is too large to compute", amt)
	default:
		r.ob("FALLBACK", g.at, o.Pos, o.Vals[0] == w.globalT(pAmm, "MaxCoinAmount"), "the amount is %v when it is too large to compute", o.Vals[0])
	}
}

// corruptAddress: the path ends because a stored address is none.
func corruptAddress(o *Outcome) bool {
	for a, v := range o.Facts().m {
		if o.Kind == "panic" && !v && a.Op == "isnil" && a.Args[0].Op == "bech32err" {
			return true
		}
	}
	return false
}

// reachedFrom: what is known where the guarded computation begins holds on the
// path o as well.
func reachedFrom(c *Outcome, p *Term, o *Outcome) bool {
	for a, v := range c.Facts().m {
		if a.containsTerm(p) {
			continue
		}
		if o.Facts().contra(Lit{a, v}) {
			return false
		}
	}
	return true
}

// happens: the path is the one taken after a panic with the message.
func happens(f *Facts, p *Term, msg string, str bool) bool {
	for a, v := range f.m {
		if !a.containsTerm(p) {
			continue
		}
		if b, ok := evalWith(a, p, msg, str).(bool); !ok || b != v {
			return false
		}
	}
	return true
}

// evalWith is the value of a term when the panic is a given message.
func evalWith(t, p *Term, msg string, str bool) any {
	switch t.Op {
	case "typeis":
		if t.Args[0] == p {
			return str && t.Name == "string"
		}
	case "typeok":
		if t.Args[0] == p {
			return str && t.Name == "string"
		}
	case "as":
		if t.Args[0] == p && str {
			return msg
		}
	case "isnil":
		if t.Args[0] == p {
			return false
		}
	case "str":
		return t.Name
	case "eq":
		a, b := evalWith(t.Args[0], p, msg, str), evalWith(t.Args[1], p, msg, str)
		if a != nil && b != nil {
			return a == b
		}
	case "call":
		var as []string
		for _, a := range t.Args {
			s, ok := evalWith(a, p, msg, str).(string)
			if !ok {
				return nil
			}
			as = append(as, s)
		}
		switch {
		case len(as) == 1 && t.Name == "strings.ToLower":
			return strings.ToLower(as[0])
		case len(as) == 1 && t.Name == "strings.ToUpper":
			return strings.ToUpper(as[0])
		case len(as) == 1 && t.Name == "strings.TrimSpace":
			return strings.TrimSpace(as[0])
		case len(as) == 2 && t.Name == "strings.Contains":
			return strings.Contains(as[0], as[1])
		case len(as) == 2 && t.Name == "strings.HasSuffix":
			return strings.HasSuffix(as[0], as[1])
		case len(as) == 2 && t.Name == "strings.HasPrefix":
			return strings.HasPrefix(as[0], as[1])
		case len(as) == 2 && t.Name == "strings.EqualFold":
			return strings.EqualFold(as[0], as[1])
		}
	}
	return nil
}

// unrecognised: whole numbers report an overflow of a product in a form that the
// guard does not know.
func (w *World) unrecognised(r *R, g guarded, fn *ssa.Function) {
	if fn.Parent() == nil && fn != g.fn && fnPkgPath(fn) != pAmm {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if f := c.Call.StaticCallee(); f != nil && f.String() == "("+pMath+".Int).Mul" {
				k, isConst := c.Call.Args[1].(*ssa.Const)
				r.ob("RECOGNISED", g.at, c.Pos(), isConst && k.Value != nil && k.Value.Kind() == constant.Int, "the overflow of a product of whole numbers is not recognised as one")
			}
		}
	}
}
