package main

import (
	"go/ast"
	"strings"
)

// P46: what can make the module panic. A panic in the block's begin or end stops
// the chain; one in a message or a query hides the reason of the failure.

// recordFields are the address fields of stored records; they are written from
// addresses only.
var recordFields = map[string]bool{"EscrowAddress": true, "ReserveAddress": true, "Orderer": true, "Depositor": true, "Withdrawer": true}

func storedTerm(t *Term) bool {
	return t.contains(func(x *Term) bool {
		return strings.HasPrefix(x.Op, "dec") || strings.HasPrefix(x.Op, "iter") || x.Op == "as" || strings.HasPrefix(x.Name, "types.UserOrder")
	})
}

// missing: the path assumes that a record another stored record refers to is
// not there.
func missing(f *Facts) bool {
	for a, v := range f.m {
		if v && a.Op == "isnil" && a.Args[0].Op == "kvget" && storedTerm(a.Args[0].Args[0]) {
			return true
		}
	}
	return dangling(f)
}

// outside: the path assumes a value no constant of an enumeration has, or an
// object of no known type.
func outside(f *Facts) bool {
	not := map[*Term]map[string]bool{}
	add := func(t *Term, v string) {
		if not[t] == nil {
			not[t] = map[string]bool{}
		}
		not[t][v] = true
	}
	for a, v := range f.m {
		if v {
			continue
		}
		switch a.Op {
		case "eq":
			for k := 0; k < 2; k++ {
				if n, ok := a.Args[k].intVal(); ok {
					add(a.Args[1-k], n.String())
				}
				if t := a.Args[k]; strings.HasSuffix(t.Name, "OrderDirection") && t.Op != "call" && strings.Contains(t.str(3), "maplookup") {
					return true // a result of the other direction
				}
			}
		case "typeis":
			add(a.Args[0], a.Name)
		}
	}
	all := func(m map[string]bool, vs ...string) bool {
		for _, v := range vs {
			if !m[v] {
				return false
			}
		}
		return true
	}
	for t, m := range not {
		s := t.str(2)
		switch {
		case strings.HasSuffix(s, ".Status"):
			if all(m, "1", "2", "3", "4", "5", "6") {
				return true
			}
		case strings.HasSuffix(s, ".Type"), strings.HasSuffix(s, "Direction"), strings.HasSuffix(s, "GetDirection"), strings.Contains(s, ".GetDirection("), strings.HasPrefix(s, "dir"), strings.HasPrefix(s, "direction"):
			if all(m, "1", "2") {
				return true
			}
		}
		n := 0
		for k := range m {
			if strings.Contains(k, "UserOrder") || strings.Contains(k, "PoolOrder") {
				n++
			}
		}
		if n == 2 {
			return true
		}
	}
	return false
}

// cause names what makes a path panic; "" if nothing excuses it.
func (w *World) cause(e *Entry, o *Outcome) string {
	f := o.Facts()
	if missing(f) {
		return "MISSING-RECORD"
	}
	if len(o.Vals) == 0 {
		return ""
	}
	v := o.Vals[0]
	is := func(pred func(t *Term) bool) bool { return v.contains(pred) }
	var failed *Event
	for _, ev := range allEvents(o.Events()) {
		if ev.Err != nil && (ev.Kind == "bank" || ev.Kind == "flush") && is(func(t *Term) bool { return t == ev.Err }) {
			failed = ev
		}
	}
	switch {
	case v.Op == "nonnil" && hasSuffix(v.Name, ":implicit"):
		return "PASSED-ON"
	case failed != nil:
		return "TRANSFER"
	case v.Op == "errres" && strings.HasPrefix(v.Name, "Unmarshal"), strings.HasPrefix(v.str(2), "errres:Unmarshal"):
		return "CORRUPT-RECORD"
	case v.Op == "bech32err" && len(v.Args) == 1:
		a := v.Args[0]
		if a.contains(func(t *Term) bool { return t.Op == "pparam" }) || strings.HasPrefix(a.str(3), "pparam") {
			return "PARAMETER"
		}
		if i := strings.LastIndex(a.str(3), "."); i > 0 && recordFields[a.str(3)[i+1:]] && storedTerm(a) {
			return "CORRUPT-RECORD"
		}
	}
	for a, val := range f.m {
		if !val && a.Op == "call" && hasSuffix(a.Name, "bytes.HasPrefix") && a.contains(func(t *Term) bool { return t.Op == "iterkey" }) {
			return "CORRUPT-KEY"
		}
	}
	if outside(f) {
		return "OUTSIDE"
	}
	return ""
}

func ruleP46(w *World, r *R) {
	for _, e := range w.Entries {
		if e.Kind == "genesis" {
			continue // refusing a genesis state is how an import fails
		}
		n := 0
		for _, o := range e.Outs {
			if o.Kind != "panic" {
				n++
				continue
			}
			why := "no value"
			if len(o.Vals) > 0 {
				why = clip(o.Vals[0].str(5))
			}
			c := w.cause(e, o)
			rule := "CAUSE-" + c
			if c == "" {
				rule = "CAUSE"
			}
			r.ob(rule, e.Name, o.Pos, c != "", "panics: %s", why)
		}
		r.ob("RETURNS", e.Name, e.Fn.Pos(), n > 0, "no path returns")
	}
	// the matching engine by itself
	var opaque []string
	for _, fn := range w.P.fnsOf(pAmm) {
		if ast.IsExported(fn.Name()) {
			opaque = append(opaque, fn.String())
		}
	}
	for _, fn := range w.P.fnsOf(pAmm) {
		if !ast.IsExported(fn.Name()) || len(fn.Blocks) == 0 || strings.HasSuffix(fn.Name(), "String") {
			continue
		}
		at := "amm." + fn.Name()
		x := w.run(fn, others(opaque, fn.String())...)
		if x.Err != "" {
			r.ob("ENGINE", at, fn.Pos(), false, "cannot analyse: %s", x.Err)
			continue
		}
		n := 0
		for _, o := range x.Outs {
			if o.Kind != "panic" {
				n++
				continue
			}
			why := "no value"
			if len(o.Vals) > 0 {
				why = clip(o.Vals[0].str(5))
			}
			r.ob("ENGINE", at, o.Pos, engineCause(o) != "", "panics: %s", why)
		}
		r.ob("ENGINE", at, fn.Pos(), n > 0, "no path returns")
	}
	r.floor("CAUSE-CORRUPT-RECORD", 10)
	r.floor("CAUSE-TRANSFER", 3)
	r.floor("ENGINE", 40)
}

func others(list []string, but string) []string {
	var r []string
	for _, s := range list {
		if s != but {
			r = append(r, s)
		}
	}
	return r
}

var mathDecApproxSqrt = "(math.LegacyDec).ApproxSqrt("

// engineCause: why a function of the engine may panic.
func engineCause(o *Outcome) string {
	f := o.Facts()
	v := ""
	if len(o.Vals) > 0 {
		v = o.Vals[0].str(6)
		if o.Vals[0].Op == "nonnil" && hasSuffix(o.Vals[0].Name, ":implicit") {
			return "PASSED-ON"
		}
	}
	// a range whose ends have the same root is refused when pools are created
	roots := map[*Term]bool{}
	for a, val := range f.m {
		if a.Op == "eq" && val && strings.Contains(a.Args[0].str(6), "ApproxSqrt(") && strings.Contains(a.Args[1].str(6), "ApproxSqrt(") {
			roots[a.Args[0]], roots[a.Args[1]] = true, true
		}
	}
	n := 0
	for t := range roots {
		if s := t.str(6); strings.HasPrefix(s, mathDecApproxSqrt) {
			n++
		}
	}
	if n >= 2 && (len(roots) > 2 || n == len(roots)) {
		return "NO-RANGE"
	}
	if strings.Contains(v, "nil dereference") {
		return ""
	}
	if strings.Contains(v, "ApproxSqrt(") && strings.HasSuffix(v, "#1") {
		return "ROOT"
	}
	if outside(f) {
		return "OUTSIDE"
	}
	for a, val := range f.m {
		switch {
		case a.Op == "lt" && val && strings.Contains(a.Args[0].str(3), "MatchableAmount"):
			return "TOO-MUCH"
		case a.Op == "eq" && val && (a.Args[0] == ci(0) || a.Args[1] == ci(0)):
			return "NOTHING"
		case a.Op == "call" && val && strings.HasSuffix(a.Name, "IsDepleted"):
			return "DEPLETED"
		}
	}
	return ""
}
