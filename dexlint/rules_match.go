package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func getOf(o *Term, what string) *Term { return callT(pAmm+".Order.Get"+what, o) }

var sides = []string{"", "buy", "sell"}

// side of an order in these facts: 1 buy, 2 sell, 0 unknown.
func side(f *Facts, o *Term) int {
	d := getOf(o, "Direction")
	for _, s := range []int{1, 2} {
		if f.has(eqL(d, ci(s))) {
			return s
		}
	}
	return 0
}

func setters(evs []*Event) map[string][]*Event {
	m := map[string][]*Event{}
	for _, ev := range evs {
		if ev.Kind == "invoke" {
			m[ev.Name] = append(m[ev.Name], ev)
		}
	}
	return m
}

// orderTypes are the implementations of amm.Order.
func (w *World) orderTypes() []*types.Named {
	it, ok := w.P.namedType(pAmm, "Order").Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*types.Named
	for _, pkg := range []string{pAmm, pTypes, pKeep} {
		p := w.P.Prog.ImportedPackage(pkg)
		if p == nil {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || !types.Implements(types.NewPointer(nt), it) {
				continue
			}
			r = append(r, nt)
		}
	}
	return r
}

func (w *World) ptrMethod(t types.Type, name string) *ssa.Function {
	sel := w.P.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return w.P.Prog.MethodValue(sel)
}

// P16: fills.
func ruleP16(w *World, r *R) {
	const MA = pAmm + ".MatchableAmount"
	amm := func(n string) *ssa.Function { return w.P.fn(pAmm, "", n) }

	// 1. one fill
	x := w.run(amm("FillOrder"), MA)
	r.ob("FILL", "amm.FillOrder", amm("FillOrder").Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse: %s", x.Err)
	for _, o := range x.rets() {
		ord, amt, price := x.Args[0], x.Args[1], x.Args[2]
		f, p := o.Facts(), o.Pos
		r.ob("FILL-BOUND", "amm.FillOrder", p, f.has(geL(callT(MA, ord, price), amt, false)), "an order is filled without checking its matchable amount")
		sd := side(f, ord)
		if !r.ob("FILL-SIDE", "amm.FillOrder", p, sd != 0, "an order is filled without knowing its direction") {
			continue
		}
		at := "amm.FillOrder " + sides[sd]
		set := setters(o.Events())
		delta := map[string]*Term{}
		for _, fld := range []string{"PaidOfferCoinAmount", "ReceivedDemandCoinAmount", "OpenAmount"} {
			evs := set[pAmm+".Order.Set"+fld]
			delete(set, pAmm+".Order.Set"+fld)
			if r.ob("FILL-SETS", at+" "+fld, p, len(evs) == 1 && evs[0].Args[0] == ord, "%s of the order is set %d times", fld, len(evs)) {
				delta[fld] = linAdd(evs[0].Args[1], getOf(ord, fld), -1, evs[0].Args[1].Typ)
			}
		}
		r.ob("FILL-SETS", at, p, len(set) == 0 && len(o.Events()) == 3, "a fill has other effects")
		if len(delta) != 3 {
			continue
		}
		rd := newRounder(f)
		want := polyAtom(price).mul(polyAtom(amt))
		quote, base, dir := delta["PaidOfferCoinAmount"], delta["ReceivedDemandCoinAmount"], dUp
		diff := quote
		if sd == 2 {
			quote, base, dir = base, quote, dDown
			diff = linNeg(quote, nil)
		}
		v := rd.eval(quote)
		r.ob("FILL-QUOTE", at, p, v.integer && v.tight && len(v.set) == 1 && v.has(want) && v.dir == dir, "quote coin moves by %v, want price*amount rounded %v", v, dir)
		r.ob("FILL-BASE", at, p, f.same(base, amt), "base coin moves by %v, want the filled amount", base)
		r.ob("FILL-OPEN", at, p, f.same(linNeg(delta["OpenAmount"], nil), amt), "the open amount changes by %v, want the filled amount less", delta["OpenAmount"])
		r.ob("FILL-DIFF", at, p, len(o.Vals) == 1 && linSame(f, o.Vals[0], diff), "the quote coin difference is %v", o.Vals)
	}
	r.floor("FILL-QUOTE", 1)

	// 2. what an order can give
	x = w.run(amm("MatchableAmount"))
	for _, o := range x.rets() {
		ord, price := x.Args[0], x.Args[1]
		f, p := o.Facts(), o.Pos
		sd := side(f, ord)
		if !r.ob("MATCHABLE-SIDE", "amm.MatchableAmount", p, x.Err == "" && sd != 0, "the matchable amount ignores the direction %s", x.Err) {
			continue
		}
		at := "amm.MatchableAmount " + sides[sd]
		open, pr := polyAtom(getOf(ord, "OpenAmount")), polyAtom(price)
		rem := polyAtom(getOf(ord, "OfferCoinAmount")).plus(polyAtom(getOf(ord, "PaidOfferCoinAmount")).scale(big.NewRat(-1, 1)))
		want, worth := []poly{open}, []poly{open.mul(pr)}
		if sd == 1 {
			want, worth = append(want, rem.mul(pr.inv())), append(worth, rem)
		}
		rd := newRounder(f)
		// its value in quote coins decides
		val := 0
		for a, pol := range f.m {
			if a.Op != "eq" && a.Op != "lt" || len(a.Args) != 2 {
				continue
			}
			for i, t := range a.Args {
				if a.Args[1-i] != ci(0) && !(a.Op == "lt" && i == 0 && a.Args[1] == ci(1)) {
					continue
				}
				v := rd.eval(t)
				one := a.Op == "lt" && i == 0 && a.Args[1] == ci(1) && !v.integer // value < 1
				if !v.integer && !one || !sameSet(v, worth) || v.dir != dDown && !(one && v.dir == dExact) {
					continue
				}
				zero := pol
				if a.Op == "lt" && i == 1 { // 0 < value
					zero = !pol
				}
				val = 1
				if zero {
					val = -1
				}
			}
		}
		res := o.Vals[0]
		switch val {
		case -1:
			r.ob("MATCHABLE-WORTHLESS", at, p, res == ci(0), "an amount worth nothing at the price can be matched: %v", res)
		case 1:
			v := rd.eval(res)
			r.ob("MATCHABLE", at, p, v.integer && sameSet(v, want) && (v.dir == dDown || v.dir == dExact), "the matchable amount is %v", v)
		default:
			r.ob("MATCHABLE-WORTH", at, p, false, "the matchable amount does not depend on its value at the price")
		}
	}
	r.floor("MATCHABLE", 1)
	r.floor("MATCHABLE-WORTHLESS", 1)

	// 3. fills of everything an order can give
	x = w.run(amm("FulfillOrder"), MA, "!"+pAmm+".FillOrder")
	for _, o := range x.rets() {
		ord, price := x.Args[0], x.Args[1]
		f, p := o.Facts(), o.Pos
		m := callT(MA, ord, price)
		pos := ltL(ci(0), m, false)
		evs := opaqueCalls(o.Events(), "amm.FillOrder")
		switch {
		case f.has(pos) || f.has(neL(m, ci(0))):
			if r.ob("FULFILL", "amm.FulfillOrder", p, x.Err == "" && len(o.Events()) == 1 && len(evs) == 1, "an order is filled %d times", len(evs)) {
				a := evs[0].Args
				r.ob("FULFILL-ALL", "amm.FulfillOrder", p, a[0] == ord && f.same(a[1], m) && a[2] == price, "the order is filled by %v at %v", a[1], a[2])
				r.ob("FULFILL-DIFF", "amm.FulfillOrder", p, linSame(f, o.Vals[0], evs[0].Res), "returns %v", o.Vals[0])
			}
		case f.contra(pos) || f.has(eqL(m, ci(0))):
			r.ob("FULFILL-NONE", "amm.FulfillOrder", p, len(o.Events()) == 0 && o.Vals[0] == ci(0), "an order with nothing to match is filled")
		default:
			r.ob("FULFILL-DECIDED", "amm.FulfillOrder", p, false, "an order is fulfilled without regard to what it can give")
		}
	}
	r.floor("FULFILL-ALL", 1)
	r.floor("FULFILL-NONE", 1)
	x = w.run(amm("FulfillOrders"), "!"+pAmm+".FulfillOrder")
	for _, u := range x.units() {
		if u.Loop != nil {
			continue
		}
		p := u.Out.Pos
		ss := scans(u, u.Events, x.Args[0])
		ok := x.Err == "" && len(ss) == 1 && len(u.Events) == 1 && ss[0].done(u.Facts)
		if !r.ob("FULFILL-EVERY", "amm.FulfillOrders", p, ok, "not every order is fulfilled %s", x.Err) {
			continue
		}
		for _, b := range ss[0].bodies {
			c := opaqueCalls(b.Events, "amm.FulfillOrder")
			r.ob("FULFILL-ONCE", "amm.FulfillOrders", p, len(c) == 1 && len(b.Events) == 1 && c[0].Args[0] == ss[0].el && c[0].Args[1] == x.Args[1], "an order is fulfilled %d times", len(c))
		}
		r.ob("FULFILL-SUM", "amm.FulfillOrders", p, sumIs(u.Facts, u.Events, func(ev *Event) *Term {
			if ev.Kind == "call" {
				return ev.Res
			}
			return nil
		}, u.Out.Vals[0]), "the quote coin difference is not the sum over the orders")
	}
	r.floor("FULFILL-ONCE", 1)

	// 4. totals
	for _, c := range []struct {
		fn, callee string
		of         func(f *Facts, el *Term) *Term
	}{
		{"TotalMatchableAmount", MA, func(f *Facts, el *Term) *Term { return callT(MA, el, w.run(amm("TotalMatchableAmount"), MA).Args[1]) }},
		{"TotalAmount", MA, func(f *Facts, el *Term) *Term { return getOf(el, "Amount") }},
	} {
		x := w.run(amm(c.fn), c.callee)
		for _, u := range x.units() {
			if u.Loop == nil {
				r.ob("TOTAL", "amm."+c.fn, u.Out.Pos, x.Err == "" && sumOver(u, u.Out.Vals[0], x.Args[0], c.of), "%v is not the sum over all orders", u.Out.Vals[0])
			}
		}
	}
	r.floor("TOTAL", 1)

	// 5. the accessors of every kind of order
	acc := []string{"Direction", "Price", "Amount", "OfferCoinAmount", "PaidOfferCoinAmount", "ReceivedDemandCoinAmount", "OpenAmount"}
	bases := func(arg *Term, t types.Type) *Term { // the BaseOrder behind an order
		c := mk("deref", "", t, arg)
		if fieldIdx(t, "BaseOrder") >= 0 {
			return F(c, "BaseOrder")
		}
		return arg
	}
	baseT := w.P.namedType(pAmm, "BaseOrder")
	for _, t := range w.orderTypes() {
		name := t.Obj().Name()
		for _, fld := range acc {
			fn := w.ptrMethod(t, "Get"+fld)
			x := w.run(fn)
			for _, o := range x.rets() {
				want := F(mk("deref", "", baseT, bases(x.Args[0], t)), fld)
				r.ob("GETTER", name+".Get"+fld, o.Pos, x.Err == "" && len(o.Vals) == 1 && o.Vals[0] == want && len(o.Events()) == 0, "returns %v want %v", o.Vals, want)
			}
			if fn = w.ptrMethod(t, "Set"+fld); fn == nil {
				continue
			}
			x = w.run(fn)
			for _, o := range x.rets() {
				root := bases(x.Args[0], t)
				after, before := o.St.mem[root], mk("deref", "", baseT, root)
				ok := after != nil && x.Err == ""
				for i := 0; ok && i < structOf(baseT).NumFields(); i++ {
					n := structOf(baseT).Field(i).Name()
					if n == fld {
						ok = F(after, n) == x.Args[1]
					} else {
						ok = F(after, n) == F(before, n)
					}
				}
				r.ob("SETTER", name+".Set"+fld, o.Pos, ok, "leaves %v", after)
			}
		}
		x := w.run(w.ptrMethod(t, "IsMatched"))
		for _, o := range x.rets() {
			b := mk("deref", "", baseT, bases(x.Args[0], t))
			l := ltL(F(b, "OpenAmount"), F(b, "Amount"), false)
			r.ob("IS-MATCHED", name, o.Pos, truth(o, l), "returns %v", o.Vals[0])
		}
		x = w.run(w.ptrMethod(t, "GetBatchId"))
		for _, o := range x.rets() {
			want := ci(0)
			if fieldIdx(t, "BatchId") >= 0 {
				want = F(mk("deref", "", t, x.Args[0]), "BatchId")
			}
			r.ob("BATCH-ID", name, o.Pos, o.Vals[0] == want, "returns %v", o.Vals[0])
		}
	}
	r.floor("GETTER", 1)
	r.floor("SETTER", 1)
	r.floor("IS-MATCHED", 1)
	r.floor("BATCH-ID", 1)

	// 6. what a stored order can give is what it has left
	x = w.run(w.P.fn(pTypes, "", "NewUserOrder"))
	for _, o := range x.rets() {
		ord, f, p := x.Args[0], o.Facts(), o.Pos
		uo := o.St.mem[o.Vals[0]]
		if !r.ob("USER-ORDER", "types.NewUserOrder", p, x.Err == "" && uo != nil && o.St.mem[F(uo, "BaseOrder")] != nil, "cannot analyse %s", x.Err) {
			continue
		}
		b := o.St.mem[F(uo, "BaseOrder")]
		sd := 0
		for _, s := range []int{1, 2} {
			if f.has(eqL(F(ord, "Direction"), ci(s))) {
				sd = s
			}
		}
		if sd == 0 {
			continue // no stored order has another direction (P01)
		}
		at := "types.NewUserOrder " + sides[sd]
		chk := func(n string, got *Term, ok bool) {
			r.ob("USER-ORDER-"+n, at, p, ok, "%s is %v", n, got)
		}
		chk("Direction", F(b, "Direction"), F(b, "Direction") == ci(sd))
		chk("Price", F(b, "Price"), F(b, "Price") == F(ord, "Price"))
		rem := F(ord, "RemainingOfferCoin", "Amount")
		chk("OfferCoinAmount", F(b, "OfferCoinAmount"), f.same(F(b, "OfferCoinAmount"), rem))
		v := newRounder(f).eval(F(b, "OpenAmount"))
		open := polyAtom(F(ord, "OpenAmount"))
		ok := v.integer && sameSet(v, []poly{open})
		if sd == 1 {
			ok = affords(f, F(b, "OpenAmount"), F(ord, "OpenAmount"), rem, F(ord, "Price")) != 0
		}
		chk("OpenAmount", F(b, "OpenAmount"), ok)
		chk("Amount", F(b, "Amount"), F(b, "Amount") == F(b, "OpenAmount"))
		for _, n := range []string{"PaidOfferCoinAmount", "ReceivedDemandCoinAmount"} {
			chk(n, F(b, n), F(b, n) == ci(0))
		}
		chk("OrderId", F(uo, "OrderId"), F(uo, "OrderId") == F(ord, "Id"))
		chk("BatchId", F(uo, "BatchId"), F(uo, "BatchId") == F(ord, "BatchId"))
		chk("Orderer", F(uo, "Orderer"), F(uo, "Orderer") == addrOf(F(ord, "Orderer")))
		chk("OfferCoinDenom", F(uo, "OfferCoinDenom"), F(uo, "OfferCoinDenom") == F(ord, "OfferCoin", "Denom"))
		chk("DemandCoinDenom", F(uo, "DemandCoinDenom"), F(uo, "DemandCoinDenom") == F(ord, "ReceivedCoin", "Denom"))
	}
	r.floor("USER-ORDER-OpenAmount", 1)
	x = w.run(w.P.fn(pTypes, "", "NewPoolOrder"), pAmm+".OfferCoinAmount")
	for _, o := range x.rets() {
		po := o.St.mem[o.Vals[0]]
		if !r.ob("POOL-ORDER", "types.NewPoolOrder", o.Pos, x.Err == "" && po != nil && o.St.mem[F(po, "BaseOrder")] != nil && len(x.Args) == 7, "cannot analyse %s", x.Err) {
			continue
		}
		b := o.St.mem[F(po, "BaseOrder")]
		dir, price, amt := x.Args[2], x.Args[3], x.Args[4]
		for _, c := range []struct {
			n       string
			of, val *Term
		}{
			{"Direction", b, dir}, {"Price", b, price}, {"Amount", b, amt}, {"OpenAmount", b, amt},
			{"OfferCoinAmount", b, callT(pAmm+".OfferCoinAmount", dir, price, amt)},
			{"PaidOfferCoinAmount", b, ci(0)}, {"ReceivedDemandCoinAmount", b, ci(0)},
			{"PoolId", po, x.Args[0]}, {"ReserveAddress", po, x.Args[1]}, {"OfferCoinDenom", po, x.Args[5]}, {"DemandCoinDenom", po, x.Args[6]},
		} {
			r.ob("POOL-ORDER-"+c.n, "types.NewPoolOrder", o.Pos, F(c.of, c.n) == c.val, "%s is %v", c.n, F(c.of, c.n))
		}
	}
	r.floor("POOL-ORDER-OpenAmount", 1)
	x = w.run(amm("OfferCoinAmount"))
	for _, o := range x.rets() {
		dir, price, amt := x.Args[0], x.Args[1], x.Args[2]
		f := o.Facts()
		v := newRounder(f).eval(o.Vals[0])
		switch {
		case f.has(eqL(dir, ci(1))):
			r.ob("OFFER-AMOUNT", "amm.OfferCoinAmount buy", o.Pos, v.integer && v.tight && v.dir == dUp && sameSet(v, []poly{polyAtom(price).mul(polyAtom(amt))}), "is %v", v)
		case f.has(eqL(dir, ci(2))):
			r.ob("OFFER-AMOUNT", "amm.OfferCoinAmount sell", o.Pos, o.Vals[0] == amt, "is %v", v)
		default:
			r.ob("OFFER-AMOUNT", "amm.OfferCoinAmount", o.Pos, false, "does not depend on the direction")
		}
	}
	r.floor("OFFER-AMOUNT", 1)
}

// truth: the outcome returns exactly whether l holds.
func truth(o *Outcome, l Lit) bool {
	v := o.Vals[0]
	switch {
	case v == constBool(true):
		return o.Facts().has(l)
	case v == constBool(false):
		return o.Facts().contra(l)
	case l.p:
		return v == l.a
	}
	return v.Op == "not" && v.Args[0] == l.a
}

func sameSet(v rv, ps []poly) bool {
	if len(v.set) != len(ps) {
		return false
	}
	for _, p := range ps {
		if !v.has(p) {
			return false
		}
	}
	return true
}

// anyPanic: the facts follow a recovered panic of an operation.
// affords: v is the smaller of what is open and what rem pays for at the
// price (1), or what is open where the latter overflows (2).
func affords(f *Facts, v, open, rem, price *Term) int {
	rd := newRounder(f)
	e := rd.eval(v)
	o, q := polyAtom(open), polyAtom(rem).mul(polyAtom(price).inv())
	if !e.integer {
		return 0
	}
	if e.dir == dDown && (sameSet(e, []poly{o, q}) || sameSet(e, []poly{q}) && f.has(geL(open, v, false))) {
		return 1
	}
	if !sameSet(e, []poly{o}) {
		return 0
	}
	// what is open is not more than what is affordable
	for a, val := range f.m {
		if a.Op != "lt" {
			continue
		}
		t := a.Args[0]
		if val {
			t = a.Args[1]
		}
		if x := rd.eval(t); x.integer && x.dir == dDown && sameSet(x, []poly{q}) && f.has(geL(t, v, false)) {
			return 1
		}
	}
	if anyPanic(f) {
		return 2
	}
	return 0
}

func anyPanic(f *Facts) bool {
	for a := range f.m {
		if a.contains(func(t *Term) bool { return t.Op == "nonnil" && hasSuffix(t.Name, ":implicit") }) {
			return true
		}
	}
	return false
}
