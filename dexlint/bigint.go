package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// *big.Int values are modelled as cells holding an integer term; the methods
// that mutate their receiver update the cell.

func (c *fctx) bigGet(s *State, p *Term) *Term {
	p = stripConv(p)
	if v, ok := s.mem[p]; ok {
		if v.Op == "zero" {
			return constInt(0)
		}
		return v
	}
	return mk("bigval", "", nil, p)
}

func (c *fctx) bigNew(s *State, v *Term, id string, typ types.Type) *Term {
	a := mk("alloc", id, typ)
	s.mem[a] = v
	return a
}

func (c *fctx) bigSplit(s *State, lits ...struct {
	v int64
	l []Lit
}) []*Outcome {
	var outs []*Outcome
	for _, x := range lits {
		f := s.facts
		for _, l := range x.l {
			if f != nil {
				f = f.assume(l.a, l.p)
			}
		}
		if f == nil {
			continue
		}
		n := s.clone()
		n.facts = f
		outs = append(outs, &Outcome{St: n, Kind: "ret", Vals: []*Term{constInt(x.v)}})
	}
	return outs
}

func (c *fctx) modelBig(s *State, name, meth string, sig *types.Signature, args []*Term, ins ssa.Instruction, id string) ([]*Outcome, bool) {
	type sp = struct {
		v int64
		l []Lit
	}
	switch meth {
	case "Add", "Sub", "Mul", "Quo", "Div", "Rem", "Mod", "Exp", "Lsh", "Set", "Neg", "Abs", "SetInt64", "SetUint64", "QuoRem", "DivMod":
	case "Sign":
		x := c.bigGet(s, args[0])
		return c.bigSplit(s, sp{-1, []Lit{ltL(x, ci(0), false)}}, sp{0, []Lit{eqL(x, ci(0))}}, sp{1, []Lit{ltL(ci(0), x, false)}}), true
	case "Cmp":
		x, y := c.bigGet(s, args[0]), c.bigGet(s, args[1])
		return c.bigSplit(s, sp{-1, []Lit{ltL(x, y, false)}}, sp{0, []Lit{eqL(x, y)}}, sp{1, []Lit{ltL(y, x, false)}}), true
	case "Text", "String", "BitLen", "IsInt64", "Int64", "IsUint64", "Uint64", "Bit":
		var as []*Term
		as = append(as, c.bigGet(s, args[0]))
		as = append(as, args[1:]...)
		if meth == "String" { // in base ten
			return ret1(s, mk("call", strings.TrimSuffix(name, "String")+"Text", sigResults(sig)[0], as[0], ci(10))), true
		}
		return ret1(s, mk("call", name, sigResults(sig)[0], as...)), true
	default:
		return nil, false
	}
	z := stripConv(args[0])
	if z.Op != "alloc" {
		return nil, false
	}
	g := func(i int) *Term { return c.bigGet(s, args[i]) }
	bin := func(n string) *Term { return callT(mathInt+"."+n, g(1), g(2)) }
	var v *Term
	switch meth {
	case "Add":
		v = linAdd(g(1), g(2), 1, nil)
	case "Sub":
		v = linAdd(g(1), g(2), -1, nil)
	case "Mul":
		v = callT(mathInt+".Mul", sort2(g(1), g(2))...)
	case "Quo", "Div":
		v = bin("Quo")
	case "Rem", "Mod":
		v = bin("Mod")
	case "QuoRem", "DivMod":
		v = bin("Quo")
		m := bin("Mod")
		if mp := stripConv(args[3]); mp.Op == "alloc" {
			s.mem[mp] = m
			s.mem[z] = v
			return ret1(s, z, mp), true
		}
		return nil, false
	case "Exp":
		v = bin("Exp")
		if args[3].Op != "nil" {
			return nil, false
		}
		if b, ok := g(1).intVal(); ok {
			if e, ok := g(2).intVal(); ok && e.IsInt64() && e.Int64() >= 0 && e.Int64() < 1000 {
				v = constBig(new(big.Int).Exp(b, e, nil))
			}
		}
	case "Lsh":
		e, ok := args[2].intVal()
		if !ok || !e.IsInt64() || e.Int64() < 0 || e.Int64() > 1000 {
			return nil, false
		}
		if b, ok := g(1).intVal(); ok {
			v = constBig(new(big.Int).Lsh(b, uint(e.Int64())))
		} else {
			v = callT(mathInt+".Mul", sort2(g(1), constBig(new(big.Int).Lsh(big.NewInt(1), uint(e.Int64()))))...)
		}
	case "Set":
		v = g(1)
	case "Neg":
		v = linNeg(g(1), nil)
	case "Abs":
		v = callT(mathInt+".Abs", g(1))
	case "SetInt64", "SetUint64":
		v = args[1]
	}
	s.mem[z] = v
	return ret1(s, z), true
}
