package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed value number. Two SSA values with the same Term are
// known to hold the same value. Terms are only compared by identity.
type Term struct {
	Op   string
	Name string
	Args []*Term
	ID   int
	Typ  types.Type // informational, not part of the identity (except where encoded in Name)
	key  string
}

var termTab = map[string]*Term{}
var termSeq int

func mk(op, name string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte('|')
		if a == nil {
			sb.WriteString("?")
		} else {
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	termSeq++
	t := &Term{Op: op, Name: name, Args: args, ID: termSeq, Typ: typ, key: k}
	termTab[k] = t
	return t
}

func constInt(v int64) *Term    { return mk("int", strconv.FormatInt(v, 10), nil) }
func constBig(v *big.Int) *Term { return mk("int", v.String(), nil) }
func constStr(s string) *Term   { return mk("str", s, nil) }
func constBool(b bool) *Term {
	if b {
		return mk("bool", "true", nil)
	}
	return mk("bool", "false", nil)
}

var nilTerm = mk("nil", "", nil)

func (t *Term) isConst() bool {
	switch t.Op {
	case "int", "str", "bool", "nil":
		return true
	}
	return false
}

func (t *Term) intVal() (*big.Int, bool) {
	if t.Op != "int" {
		return nil, false
	}
	v, ok := new(big.Int).SetString(t.Name, 10)
	return v, ok
}

func (t *Term) is(op, name string) bool { return t != nil && t.Op == op && t.Name == name }

// String renders a term for reports (bounded depth).
func (t *Term) String() string { return t.str(7) }
func (t *Term) Full() string   { return t.str(40) }

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		// keep receiver parens
		pre := ""
		if strings.HasPrefix(n, "(") {
			pre = "("
			if strings.HasPrefix(n, "(*") {
				pre = "(*"
			}
		}
		return pre + n[i+1:]
	}
	return n
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d <= 0 {
		return "…"
	}
	args := func() string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case "int", "bool":
		return t.Name
	case "str":
		return strconv.Quote(t.Name)
	case "nil":
		return "nil"
	case "param":
		return t.Name
	case "field":
		return t.Args[0].str(d-1) + "." + t.Name
	case "struct":
		var ss []string
		names := structFieldNames(t.Typ)
		for i, a := range t.Args {
			n := fmt.Sprint(i)
			if i < len(names) {
				n = names[i]
			}
			ss = append(ss, n+":"+a.str(d-1))
		}
		return shortName(t.Name) + "{" + strings.Join(ss, ", ") + "}"
	case "call":
		return shortName(t.Name) + "(" + args() + ")"
	case "res":
		return t.Args[0].str(d) + "#" + t.Name
	case "lin":
		cs := strings.Split(t.Name, ",")
		var ss []string
		for i, a := range t.Args {
			ss = append(ss, cs[i+1]+"*"+a.str(d-1))
		}
		s := strings.Join(ss, " + ")
		if cs[0] != "0" {
			s += " + " + cs[0]
		}
		return "(" + s + ")"
	case "list":
		return "[" + args() + "]"
	case "deref":
		return "*" + t.Args[0].str(d-1)
	}
	if len(t.Args) == 0 {
		return t.Op + ":" + shortName(t.Name)
	}
	n := t.Op
	if t.Name != "" {
		n += ":" + shortName(t.Name)
	}
	return n + "(" + args() + ")"
}

func structFieldNames(typ types.Type) []string {
	if typ == nil {
		return nil
	}
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var ns []string
	for i := 0; i < st.NumFields(); i++ {
		ns = append(ns, st.Field(i).Name())
	}
	return ns
}

// walk visits all sub-terms.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(f func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if found {
			return false
		}
		if f(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

func (t *Term) containsTerm(u *Term) bool {
	return t.contains(func(x *Term) bool { return x == u })
}

// ---- linear forms -------------------------------------------------------

type linForm struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) linForm {
	l := linForm{new(big.Int), map[*Term]*big.Int{}}
	if v, ok := t.intVal(); ok {
		l.c = v
		return l
	}
	if t.Op == "lin" {
		cs := strings.Split(t.Name, ",")
		l.c.SetString(cs[0], 10)
		for i, a := range t.Args {
			v, _ := new(big.Int).SetString(cs[i+1], 10)
			l.co[a] = v
		}
		return l
	}
	l.co[t] = big.NewInt(1)
	return l
}

func (l linForm) term(typ types.Type) *Term {
	var ts []*Term
	for a, v := range l.co {
		if v.Sign() != 0 {
			ts = append(ts, a)
		}
	}
	if len(ts) == 0 {
		return constBig(l.c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	if len(ts) == 1 && l.c.Sign() == 0 && l.co[ts[0]].Cmp(big.NewInt(1)) == 0 {
		return ts[0]
	}
	cs := []string{l.c.String()}
	for _, a := range ts {
		cs = append(cs, l.co[a].String())
	}
	return mk("lin", strings.Join(cs, ","), typ, ts...)
}

func linAdd(a, b *Term, sign int64, typ types.Type) *Term {
	la, lb := toLin(a), toLin(b)
	s := big.NewInt(sign)
	la.c = new(big.Int).Add(la.c, new(big.Int).Mul(lb.c, s))
	for t, v := range lb.co {
		x, ok := la.co[t]
		if !ok {
			x = new(big.Int)
		}
		la.co[t] = new(big.Int).Add(x, new(big.Int).Mul(v, s))
	}
	return la.term(typ)
}

func linNeg(a *Term, typ types.Type) *Term { return linAdd(constInt(0), a, -1, typ) }

// ---- structs -------------------------------------------------------------

func structOf(typ types.Type) *types.Struct {
	if typ == nil {
		return nil
	}
	st, _ := typ.Underlying().(*types.Struct)
	return st
}

func typeName(typ types.Type) string {
	return types.TypeString(typ, nil)
}

// mkField projects a field, reducing over struct constructors.
func mkField(v *Term, typ types.Type, idx int) *Term {
	st := structOf(typ)
	f := st.Field(idx)
	switch v.Op {
	case "struct":
		if idx < len(v.Args) {
			return v.Args[idx]
		}
	case "zero":
		return zeroTerm(f.Type())
	case "dec":
		if x := keyedField(v, typ, f.Name()); x != nil {
			return x
		}
	case "ite":
		return mkIte(v.Args[0], mkField(v.Args[1], typ, idx), mkField(v.Args[2], typ, idx))
	}
	t := mk("field", f.Name(), f.Type(), v)
	return t
}

// recordKeys describes how primary records are keyed: prefix byte and the
// identifying fields in key order. Filled from the repository's globals; that
// every write obeys it is itself checked (rule KEY).
type recordKey struct {
	prefix int64
	fields []string
}

var recordKeys = map[string]recordKey{}

// keyedField: the identifying fields of a record read from the store equal the
// components of the key it was read from.
func keyedField(v *Term, typ types.Type, name string) *Term {
	if v.Args[0].Op != "kvget" {
		return nil
	}
	rk, ok := recordKeys[typeName(typ)]
	if !ok {
		return nil
	}
	k := v.Args[0].Args[0]
	if k.Op != "cat" || len(k.Args) != 1+len(rk.fields) {
		return nil
	}
	if p := constPrefix(k); len(p) < 1 || p[0] != rk.prefix {
		return nil
	}
	for i, f := range rk.fields {
		if f == name && k.Args[i+1].Op == "u64be" {
			return k.Args[i+1].Args[0]
		}
	}
	return nil
}

// mkUpdate returns v with field idx set to x.
func mkUpdate(v *Term, typ types.Type, idx int, x *Term) *Term {
	st := structOf(typ)
	args := make([]*Term, st.NumFields())
	for i := range args {
		if i == idx {
			args[i] = x
		} else {
			args[i] = mkField(v, typ, i)
		}
	}
	return mkStruct(typ, args)
}

func mkStruct(typ types.Type, args []*Term) *Term {
	st := structOf(typ)
	// eta: all fields project from the same value
	var base *Term
	eta := len(args) > 0
	for i, a := range args {
		if a.Op != "field" || a.Name != st.Field(i).Name() {
			continue
		}
		if base == nil {
			base = a.Args[0]
		} else if base != a.Args[0] {
			eta = false
			break
		}
	}
	if base == nil || base.Typ == nil || !types.Identical(base.Typ, typ) {
		eta = false
	}
	if eta {
		for i, a := range args {
			if mkField(base, typ, i) != a {
				eta = false
				break
			}
		}
	}
	if eta && base.Typ != nil && types.Identical(base.Typ, typ) {
		return base
	}
	allZero := true
	for i, a := range args {
		if a != zeroTerm(st.Field(i).Type()) {
			allZero = false
			break
		}
	}
	if allZero {
		return zeroTerm(typ)
	}
	return mk("struct", typeName(typ), typ, args...)
}

func mkIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	return mk("ite", "", a.Typ, c, a, b)
}

func zeroTerm(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constBool(false)
		case u.Info()&types.IsInteger != 0:
			return constInt(0)
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Info()&types.IsFloat != 0:
			return mk("float", "0", typ)
		}
		return nilTerm
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return nilTerm
	case *types.Struct:
		if u.NumFields() == 0 {
			return mk("zero", typeName(typ), typ)
		}
		return mk("zero", typeName(typ), typ)
	case *types.Array:
		return mk("zero", typeName(typ), typ)
	}
	return mk("zero", typeName(typ), typ)
}
