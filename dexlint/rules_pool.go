package main

import "fmt"

var creators = []string{"CreatePool", "CreateRangedPool"}

// newRecord is the new record of a type stored on this path.
func newRecord(u *Unit, rec string) *recWrite {
	for _, x := range writes(u.Events, rec) {
		if x.Base == nil {
			x := x
			return &x
		}
	}
	return nil
}

func countNew(u *Unit, rec string) int {
	n := 0
	for _, x := range writes(u.Events, rec) {
		if x.Base == nil {
			n++
		}
	}
	return n
}

// P11: the supply of pool coins.
func ruleP11(w *World, r *R) {
	dep, wd := w.pfxIs("DepositRequest", 0), w.pfxIs("WithdrawRequest", 0)
	dex := constStr("dex")
	coinList := func(t *Term) *Term { // the only coin of a coin set
		if t != nil && (t.Op == "coins" || t.Op == "list") && len(t.Args) == 1 {
			return t.Args[0]
		}
		return nil
	}
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis", "export") {
		at, f := u.where(), u.Facts
		mints, burns := supplyOps(u.Events, "MintCoins"), supplyOps(u.Events, "BurnCoins")
		in := func(pred func(*Term) bool) bool {
			if u.Entry.Kind != "end" || u.Loop == nil {
				return false
			}
			for _, it := range newIters(u) {
				if pred(it.Args[0]) {
					return true
				}
			}
			return false
		}
		var denom *Term
		where := ""
		switch {
		case u.Entry.Name == "CreatePool" || u.Entry.Name == "CreateRangedPool":
			if x := newRecord(u, "Pool"); x != nil && u.Out != nil {
				denom, where = F(x.Val, "PoolCoinDenom"), "create"
			}
		case in(dep):
			q := w.elemOf(u, "DepositRequest")
			if p := w.recTerm(u, "Pool", w.key("Pool", F(q, "PoolId"))); p != nil {
				denom, where = F(p, "PoolCoinDenom"), "deposit"
			}
		case in(wd):
			q := w.elemOf(u, "WithdrawRequest")
			if p := w.recTerm(u, "Pool", w.key("Pool", F(q, "PoolId"))); p != nil {
				denom, where = F(q, "PoolCoin", "Denom"), "withdraw"
				// the request's pool coin is the pool's coin: checked when it is stored (P08)
			}
		}
		for _, m := range mints {
			c := coinList(m.Args[1])
			r.ob("MINT-WHERE", at, m.Pos, where == "create" || where == "deposit", "coins are minted outside pool creation and executed deposits")
			r.ob("MINT-MODULE", at, m.Pos, m.Args[0] == dex, "coins are minted to module %v", m.Args[0])
			if denom != nil {
				r.ob("MINT-DENOM", at, m.Pos, c != nil && f.same(F(c, "Denom"), denom), "minted coins are %v, want the pool's own coin %v", m.Args[1], denom)
			}
			n := 0
			for _, t := range transfers(u.Events) {
				if t.From == modAddr(dex) && t.Coins == m.Args[1] {
					n++
				}
			}
			r.ob("MINT-HANDED-OVER", at, m.Pos, n == 1 && len(mints) == 1, "%d mints; minted coins leave the module %d times", len(mints), n)
		}
		for _, b := range burns {
			c := coinList(b.Args[1])
			r.ob("BURN-WHERE", at, b.Pos, where == "withdraw", "coins are burned outside executed withdrawals")
			r.ob("BURN-MODULE", at, b.Pos, b.Args[0] == dex, "coins are burned from module %v", b.Args[0])
			if denom != nil {
				r.ob("BURN-DENOM", at, b.Pos, c != nil && f.same(F(c, "Denom"), denom), "burned coins are %v, want the pool's own coin %v", b.Args[1], denom)
			}
			n := 0
			for _, t := range transfers(u.Events) {
				if t.To == modAddr(dex) && t.Coins == b.Args[1] {
					n++
				}
			}
			r.ob("BURN-BROUGHT-IN", at, b.Pos, n == 1 && len(burns) == 1, "%d burns; burned coins reach the module %d times", len(burns), n)
		}
		if where == "create" {
			r.ob("CREATE-MINTS", at, u.pos(), len(mints) == 1, "creating a pool mints %d times", len(mints))
		}
		// the module account only passes pool coins through
		for _, t := range transfers(u.Events) {
			if t.From == modAddr(dex) {
				ok := false
				for _, m := range mints {
					ok = ok || m.Args[1] == t.Coins
				}
				r.ob("MODULE-PASS-THROUGH", at, t.Ev.Pos, ok, "the module account pays out %v without having minted it", t.Coins)
			}
			if t.To == modAddr(dex) {
				ok := false
				for _, m := range burns {
					ok = ok || m.Args[1] == t.Coins
				}
				r.ob("MODULE-PASS-THROUGH", at, t.Ev.Pos, ok, "the module account receives %v without burning it", t.Coins)
			}
		}
	}
	// one denomination per pool id, and back
	pcd := w.run(w.P.fn(pTypes, "", "PoolCoinDenom"))
	for _, o := range pcd.rets() {
		v := o.Vals[0]
		var ok bool
		switch {
		case pcd.Err != "" || len(o.Facts().m) != 0:
		case v.Op == "call" && hasSuffix(v.Name, "fmt.Sprintf") && len(v.Args) == 2:
			ok = v.Args[0] == constStr("pool%d") && v.Args[1].containsTerm(pcd.Args[0])
		case v.Op == "strcat" && v.Args[0] == constStr("pool"):
			n := v.Args[1]
			ok = n.Op == "call" && (n.Name == "strconv.FormatUint" && n.Args[0] == pcd.Args[0] && n.Args[1] == ci(10) || n.Name == "fmt.Sprint" && len(n.Args) == 1 && n.Args[0].containsTerm(pcd.Args[0]))
		}
		r.ob("DENOM-PER-POOL", "types.PoolCoinDenom", o.Pos, ok, "the pool coin denomination is %v", v)
	}
	r.floor("DENOM-PER-POOL", 1)
	r.floor("CREATE-MINTS", 1)
	r.floor("MINT-DENOM", 1)
	r.floor("BURN-DENOM", 1)
}

var poolTerms = []string{"Type", "Id", "PairId", "Creator", "ReserveAddress", "PoolCoinDenom", "MinPrice", "MaxPrice"}

// enabled pools are the only ones that act.
func ruleP12(w *World, r *R) {
	end := w.ByName["EndBlock"]
	byPair := w.pfxIs("PoolsByPairIndex", 1)
	// 1. the scan before matching
	for _, u := range w.bodiesOver(end, byPair) {
		f, at := u.Facts, u.where()
		p := w.scannedPool(u)
		if !r.ob("SCAN-POOL", at, u.pos(), p != nil, "the scan of a pair's pools does not look up the pool") {
			continue
		}
		dis := Lit{F(p, "Disabled"), true}
		pw := writes(u.Events, "Pool")
		switch {
		case f.has(dis):
			r.ob("SCAN-DISABLED", at, u.pos(), len(kvsets(u.Events)) == 0 && len(transfers(u.Events)) == 0, "a disabled pool is touched by matching")
		case f.contra(dis) && depletion(f) == 1:
			r.ob("SCAN-DEPLETED", at, u.pos(), len(pw) == 1 && pw[0].Base == p && F(pw[0].Val, "Disabled") == constBool(true), "a depleted pool is not disabled before matching")
		case f.contra(dis) && depletion(f) == -1:
			r.ob("SCAN-ALIVE", at, u.pos(), len(pw) == 0, "a working pool is written during the scan")
		default:
			r.ob("SCAN-DECIDED", at, u.pos(), false, "a pool is used without knowing whether it is disabled or depleted")
		}
		if d := depletionTerm(f); d != nil {
			r.ammPoolOf("SCAN-RESERVES", at, u, p, d.Args[0])
		}
	}
	r.floor("SCAN-DISABLED", 1)
	r.floor("SCAN-DEPLETED", 1)
	r.floor("SCAN-ALIVE", 1)
	r.ob("SCAN-ALL", "EndBlock", end.Fn.Pos(), len(w.earlyExits(end, byPair)) == 0, "the scan of a pair's pools can stop before its end")
	// 2. the pools collected by the scan: exactly the working ones
	n := 0
	for mu, mi := range end.In.Mus {
		appends := 0
		for _, b := range mi.Backs {
			if b.Val != nil && b.Val.Op == "append" && b.Val.Args[0] == mu && b.Val.contains(func(t *Term) bool { return t.Op == "struct" && hasSuffix(t.Name, ".PoolOrderer") }) || b.Snap != nil && b.Snap.Op == "append" && b.Snap.Args[0] == mu && b.Snap.contains(func(t *Term) bool { return t.Op == "struct" && hasSuffix(t.Name, ".PoolOrderer") }) {
				appends++
			}
		}
		if appends == 0 {
			continue
		}
		n++
		for _, b := range mi.Backs {
			if dangling(b.Facts) {
				continue
			}
			at := "EndBlock list " + mi.Loop
			dis := disabledFact(b.Facts)
			alive := dis == -1 && depletion(b.Facts) == -1
			switch {
			case b.Val == mu:
				r.ob("LIST-KEEPS", at, end.Fn.Pos(), !alive, "a working pool is left out of matching")
			case b.Snap != nil && b.Snap.Op == "append" && b.Snap.Args[0] == mu && len(b.Snap.Args) == 2:
				r.ob("LIST-ALIVE", at, end.Fn.Pos(), alive, "a pool that may be disabled or depleted takes part in matching")
				r.poolOrderer("LIST-POOL", at, w, b.Facts, b.Snap.Args[1])
			default:
				r.ob("LIST-SHAPE", at, end.Fn.Pos(), false, "the list of pools becomes %v", b.Val)
			}
		}
	}
	r.ob("LIST", "EndBlock", end.Fn.Pos(), n >= 1, "no list of working pools is built before matching")
	r.floor("LIST-ALIVE", 1)
	// 3. the record
	for _, u := range w.AllUnits("msg", "begin", "end") {
		for _, x := range writes(u.Events, "Pool") {
			at, p := u.where(), x.Ev.Pos
			if x.Base == nil {
				r.ob("NEW-ENABLED", at, p, F(x.Val, "Disabled") == constBool(false), "a new pool is stored disabled")
				continue
			}
			for _, fld := range poolTerms {
				r.ob("POOL-FIXED", at+" "+fld, p, u.Facts.same(F(x.Val, fld), F(x.Base, fld)), "a pool's %s changes after creation", fld)
			}
			d := F(x.Val, "Disabled")
			if u.Facts.same(d, F(x.Base, "Disabled")) || d == F(x.Base, "Disabled") {
				continue
			}
			ok := d == constBool(true)
			if ok {
				ok = depletion(u.Facts) == 1 || len(supplyOps(u.Events, "BurnCoins")) > 0
			}
			r.ob("DISABLE-REASON", at, p, ok, "a pool's disabled mark changes to %v without the pool being exhausted", d)
		}
	}
	r.floor("POOL-FIXED", 1)
	r.floor("DISABLE-REASON", 1)
	// 4. withdrawing the whole supply closes the pool
	for _, u := range w.bodiesOver(end, w.pfxIs("WithdrawRequest", 0)) {
		q := w.elemOf(u, "WithdrawRequest")
		succ := false
		for _, x := range writes(u.Events, "WithdrawRequest") {
			succ = succ || F(x.Val, "Status") == ci(rqSucceeded)
		}
		p := w.recTerm(u, "Pool", w.key("Pool", F(q, "PoolId")))
		if !succ || p == nil {
			continue
		}
		all := eqL(F(q, "PoolCoin", "Amount"), w.supply(u, F(p, "PoolCoinDenom")))
		n := 0
		for _, x := range writes(u.Events, "Pool") {
			if F(x.Val, "Disabled") == constBool(true) {
				n++
			}
		}
		switch {
		case u.Facts.has(all):
			r.ob("EMPTIED-DISABLED", u.where(), u.pos(), n == 1, "a pool whose whole supply was withdrawn stays enabled")
		case u.Facts.contra(all):
			r.ob("PARTIAL-STAYS", u.where(), u.pos(), n == 0, "a pool with remaining supply is disabled by a withdrawal")
		default:
			r.ob("EMPTIED-DECIDED", u.where(), u.pos(), false, "a withdrawal does not check whether it takes the whole supply")
		}
	}
	r.floor("EMPTIED-DISABLED", 1)
	r.floor("PARTIAL-STAYS", 1)
	// 5. a depleted pool met by a request is disabled
	for _, rec := range []string{"DepositRequest", "WithdrawRequest"} {
		for _, u := range w.bodiesOver(end, w.pfxIs(rec, 0)) {
			q := w.elemOf(u, rec)
			p := w.recTerm(u, "Pool", w.key("Pool", F(q, "PoolId")))
			if p == nil {
				continue
			}
			if d := depletionTerm(u.Facts); d != nil {
				r.ammPoolOf("REQUEST-RESERVES", u.where(), u, p, d.Args[0])
				if u.Facts.m[d] {
					pw := writes(u.Events, "Pool")
					r.ob("REQUEST-DEPLETED", u.where(), u.pos(), len(pw) == 1 && F(pw[0].Val, "Disabled") == constBool(true), "a depleted pool is not disabled when a request meets it")
				}
			}
		}
	}
	r.floor("REQUEST-DEPLETED", 1)
	// 6. what depleted means
	r.depleted("BasicPool", func(f *Facts, ps, x, y Lit) int {
		if f.has(ps) || f.has(x) || f.has(y) {
			return 1
		}
		if f.contra(ps) && f.contra(x) && f.contra(y) {
			return -1
		}
		return 0
	})
	r.depleted("RangedPool", func(f *Facts, ps, x, y Lit) int {
		if f.has(ps) || f.has(x) && f.has(y) {
			return 1
		}
		if f.contra(ps) && (f.contra(x) || f.contra(y)) {
			return -1
		}
		return 0
	})
	r.floor("DEPLETED-BasicPool", 1)
	r.floor("DEPLETED-RangedPool", 1)
}

func (r *R) depleted(typ string, want func(f *Facts, ps, x, y Lit) int) {
	w := r.w
	x := w.run(w.P.fn(pAmm, "*"+typ, "IsDepleted"))
	if !r.ob("DEPLETED-"+typ, "amm."+typ+".IsDepleted", 0, x.Err == "" && len(x.Args) == 1, "cannot be analysed: %s", x.Err) {
		return
	}
	obj := mk("deref", "", w.P.namedType(pAmm, typ), x.Args[0])
	lit := func(n string) Lit { return eqL(F(obj, n), ci(0)) }
	for _, o := range x.rets() {
		for _, c := range cases(o.Facts(), o.Vals[0]) {
			k := want(c.f, lit("ps"), lit("rx"), lit("ry"))
			r.ob("DEPLETED-"+typ, "amm."+typ+".IsDepleted", o.Pos, k != 0 && (k == 1) == c.v, "IsDepleted returns %v where %v", c.v, c.f)
		}
	}
}

// cases splits a boolean result into the facts under which it is true and
// false.
type boolCase struct {
	f *Facts
	v bool
}

func cases(f *Facts, t *Term) []boolCase {
	if t == constBool(true) {
		return []boolCase{{f, true}}
	}
	if t == constBool(false) {
		return []boolCase{{f, false}}
	}
	a, p := litOf(t)
	var cs []boolCase
	if a == nil {
		return []boolCase{{f, true}, {f, false}}
	}
	if g := f.assume(a, p); g != nil {
		cs = append(cs, boolCase{g, true})
	}
	if g := f.assume(a, !p); g != nil {
		cs = append(cs, boolCase{g, false})
	}
	return cs
}

func depletionTerm(f *Facts) *Term {
	for a := range f.m {
		if a.Op == "call" && hasSuffix(a.Name, ".IsDepleted") {
			return a
		}
	}
	return nil
}

// disabledFact: +1 a stored pool is known disabled, -1 known enabled.
func disabledFact(f *Facts) int {
	for a, v := range f.m {
		if a.Op == "field" && a.Name == "Disabled" && a.Args[0].Op == "dec" && a.Args[0].Name == pTypes+".Pool" {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// scannedPool is the pool record the unit's index iteration refers to.
func (w *World) scannedPool(u *Unit) *Term {
	var p *Term
	look := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "dec" && x.Name == pTypes+".Pool" && x.Args[0].Op == "kvget" && x.Args[0].Args[0].Op == "cat" && len(x.Args[0].Args[0].Args) == 2 &&
				x.Args[0].Args[0].contains(func(y *Term) bool { return y.Op == "iterkey" }) {
				if p == nil || x.ID < p.ID {
					p = x
				}
			}
			return true
		})
	}
	for a := range u.Facts.m {
		look(a)
	}
	return p
}

// ammPoolOf: the pool object tested for depletion is built from the pool's own
// reserves and supply.
func (r *R) ammPoolOf(rule, at string, u *Unit, p, obj *Term) {
	w := r.w
	ok := obj.Op == "call" && (hasSuffix(obj.Name, ".NewBasicPool") && len(obj.Args) == 3 || hasSuffix(obj.Name, ".NewRangedPool") && len(obj.Args) == 5)
	if ok {
		pair := pairOfAmount(obj.Args[0])
		ok = pair != nil && isBalance(obj.Args[0], addrOf(F(p, "ReserveAddress")), F(pair, "QuoteCoinDenom")) && isBalance(obj.Args[1], addrOf(F(p, "ReserveAddress")), F(pair, "BaseCoinDenom")) && isSupply(obj.Args[2], F(p, "PoolCoinDenom"))
		if ok {
			ok = pairMatches(w, u, pair, p)
		}
		if hasSuffix(obj.Name, ".NewBasicPool") {
			ok = ok && u.Facts.has(eqL(F(p, "Type"), ci(1)))
		} else {
			ok = ok && u.Facts.has(eqL(F(p, "Type"), ci(2))) && derefOf(obj.Args[3]) == F(p, "MinPrice") && derefOf(obj.Args[4]) == F(p, "MaxPrice")
		}
	}
	r.ob(rule, at, u.pos(), ok, "the pool is judged by %v instead of its own reserves, supply and price range", obj)
}

func derefOf(t *Term) *Term {
	if t.Op == "deref" {
		return t.Args[0]
	}
	return nil
}

// pairMatches: pair is the stored pair of pool p, or the pair being scanned.
func pairMatches(w *World, u *Unit, pair, p *Term) bool {
	if pair.Op != "dec" {
		return false
	}
	x := pair.Args[0]
	if x.Op == "kvget" {
		return x.Args[0] == w.key("Pair", F(p, "PairId"))
	}
	if x.Op == "iterval" { // the pools index is scanned for this pair
		for v := u; v != nil; v = v.Parent {
			for _, it := range newIters(v) {
				if w.prefixOf(it.Args[0], "PoolsByPairIndex", 1) && it.Args[0].Args[1].Args[0] == F(pair, "Id") {
					return true
				}
			}
		}
	}
	return false
}

func pairOfAmount(t *Term) *Term {
	if t.Op == "call" && t.Name == sdkCoins+".AmountOf" && t.Args[1].Op == "field" {
		return t.Args[1].Args[0]
	}
	return nil
}

func isBalance(t, addr, denom *Term) bool {
	return t.Op == "call" && t.Name == sdkCoins+".AmountOf" && t.Args[1] == denom && t.Args[0].Op == "bankq" && t.Args[0].Args[0] == addr
}

func isSupply(t, denom *Term) bool {
	return t.Op == "field" && t.Name == "Amount" && t.Args[0].Op == "bankq" && t.Args[0].Args[0] == denom
}

// poolOrderer: the collected element carries the pool's identity.
func (r *R) poolOrderer(rule, at string, w *World, f *Facts, el *Term) {
	var po *Term
	el.walk(func(t *Term) bool {
		if t.Op == "struct" && hasSuffix(t.Name, ".PoolOrderer") {
			po = t
		}
		return true
	})
	d := depletionTerm(f)
	if po == nil || d == nil {
		r.ob(rule, at, r.w.ByName["EndBlock"].Fn.Pos(), false, "collected pool is %v", el)
		return
	}
	obj := d.Args[0]
	inner := F(po, "Pool")
	for inner != nil && inner.Op == "iface" {
		inner = inner.Args[0]
	}
	var p *Term
	obj.walk(func(t *Term) bool {
		if t.Op == "dec" && t.Name == pTypes+".Pool" {
			p = t
		}
		return true
	})
	pair := pairOfAmount(obj.Args[0])
	ok := p != nil && pair != nil && inner == obj && F(po, "Id") == F(p, "Id") && F(po, "ReserveAddress") == addrOf(F(p, "ReserveAddress")) &&
		F(po, "BaseCoinDenom") == F(pair, "BaseCoinDenom") && F(po, "QuoteCoinDenom") == F(pair, "QuoteCoinDenom")
	r.ob(rule, at, r.w.ByName["EndBlock"].Fn.Pos(), ok, "a pool takes part in matching as %v", po)
}

// P13: pool creation.
func ruleP13(w *World, r *R) {
	for _, name := range creators {
		e := w.ByName[name]
		msg := e.Msg
		pair := w.stored("Pair", F(msg, "PairId"))
		ranged := name == "CreateRangedPool"
		quote, base := F(pair, "QuoteCoinDenom"), F(pair, "BaseCoinDenom")
		byPair := mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx["PoolsByPairIndex"])), mk("u64be", "", nil, F(msg, "PairId")))
		for _, u := range w.Units(e) {
			f, at := u.Facts, u.where()
			if u.Out == nil {
				r.ob("LOOPS-QUIET", at, u.pos(), len(kvsets(u.Events))+len(transfers(u.Events)) == 0, "effects inside a loop of pool creation")
				continue
			}
			p := u.Out.Pos
			need := func(rule string, ls ...Lit) {
				ok := false
				for _, l := range ls {
					ok = ok || f.has(l)
				}
				r.ob(rule, at, p, ok, "a pool is created on a path where %v is not established", ls)
			}
			nr := newRecord(u, "Pool")
			if !r.ob("ONE-POOL", at, p, countNew(u, "Pool") == 1, "%d pools are stored", countNew(u, "Pool")) {
				continue
			}
			v := nr.Val
			need("PAIR-EXISTS", neL(pair.Args[0], nilTerm))
			r.everyElem("DENOMS-IN-PAIR", at, u, F(msg, "DepositCoins"), func(f *Facts, el *Term) bool {
				return f.has(eqL(F(el, "Denom"), quote)) || f.has(eqL(F(el, "Denom"), base))
			})
			minInit := param("MinInitialDepositAmount")
			x, y := callT(sdkCoins+".AmountOf", F(msg, "DepositCoins"), quote), callT(sdkCoins+".AmountOf", F(msg, "DepositCoins"), base)
			var made *Term
			if ranged {
				made = callT(pAmm+".CreateRangedPool", x, y, F(msg, "MinPrice"), F(msg, "MaxPrice"), F(msg, "InitialPrice"))
			} else {
				made = callT(pAmm+".CreateBasicPool", x, y)
			}
			need("AMM-ACCEPTS", eqL(proj(made, 1), nilTerm))
			obj := proj(made, 0)
			deposit := F(msg, "DepositCoins")
			if ranged {
				bal := callT("(*"+pAmm+".RangedPool).Balances", obj)
				ax, ay := proj(bal, 0), proj(bal, 1)
				need("MIN-DEPOSIT", geL(ax, minInit, false), geL(ay, minInit, false), geL(mkMinMax("max", []*Term{ax, ay}, nil), minInit, false))
				deposit = coinsOf(w.coin(quote, ax), w.coin(base, ay))
				prec := param("TickPrecision")
				for _, n := range []string{"MinPrice", "MaxPrice", "InitialPrice"} {
					need("ON-TICK-"+n, eqL(F(msg, n), callT(pAmm+".PriceToDownTick", F(msg, n), prec)))
				}
				need("LOWEST-TICK", geL(F(msg, "MinPrice"), callT(pAmm+".LowestTick", prec), false))
			} else {
				r.everyElem("MIN-DEPOSIT", at, u, F(msg, "DepositCoins"), func(f *Facts, el *Term) bool {
					return f.has(geL(F(el, "Amount"), minInit, false))
				})
				need("TWO-COINS", eqL(mkLen(F(msg, "DepositCoins")), ci(2)))
			}
			// pools already there
			exhausted := false
			for a, val := range f.m {
				if a.Op == "itervalid" && !val && a.Args[0].Args[0] == byPair {
					exhausted = true
				}
			}
			r.ob("SCAN-ALL", at, p, exhausted, "the pair's pools are not all looked at")
			var mu *Term
			for a, val := range f.m {
				if a.Op == "lt" && val && a.Args[1] == param("MaxNumActivePoolsPerPair") {
					c := a.Args[0]
					for c.Op == "conv" {
						c = c.Args[0]
					}
					if c.Op == "mu" {
						mu = c
					}
				}
			}
			if r.ob("MAX-POOLS", at, p, mu != nil && e.In.Mus[mu] != nil, "the number of the pair's working pools is not limited") {
				mi := e.In.Mus[mu]
				r.ob("MAX-POOLS-START", at, p, mi.Init == ci(0), "counting starts at %v", mi.Init)
				for i, b := range mi.Backs {
					if flagged(u, mu, i) {
						continue
					}
					switch disabledFact(b.Facts) {
					case 1:
						r.ob("MAX-POOLS-COUNT", at, p, b.Val == mu, "a disabled pool changes the count to %v", b.Val)
					case -1:
						r.ob("MAX-POOLS-COUNT", at, p, b.Val == linAdd(mu, ci(1), 1, b.Val.Typ), "a working pool changes the count to %v", b.Val)
					default:
						if !dangling(b.Facts) {
							r.ob("MAX-POOLS-COUNT", at, p, b.Val == linAdd(mu, ci(1), 1, b.Val.Typ), "a pool that may be working is not counted")
						}
					}
				}
			}
			// the record
			chk := func(fld string, want *Term) {
				r.ob("RECORD-"+fld, at, nr.Ev.Pos, f.same(F(v, fld), want), "the new pool's %s is %v, want %v", fld, F(v, fld), want)
			}
			id := F(v, "Id")
			chk("PairId", F(msg, "PairId"))
			chk("Creator", F(msg, "Creator"))
			chk("LastDepositRequestId", ci(0))
			chk("LastWithdrawRequestId", ci(0))
			res := w.callValue(pTypes, "PoolReserveAddress", id)
			r.ob("RECORD-ReserveAddress", at, nr.Ev.Pos, res != nil && addrOf(F(v, "ReserveAddress")) == res, "the reserve address is %v, want %v", F(v, "ReserveAddress"), res)
			den := w.callValue(pTypes, "PoolCoinDenom", id)
			r.ob("RECORD-PoolCoinDenom", at, nr.Ev.Pos, den != nil && F(v, "PoolCoinDenom") == den, "the pool coin is %v, want %v", F(v, "PoolCoinDenom"), den)
			if ranged {
				chk("Type", ci(2))
				sv := recSnap(nr.Ev)
				for _, n := range []string{"MinPrice", "MaxPrice"} {
					got := F(sv, n)
					r.ob("RECORD-"+n, at, nr.Ev.Pos, got != nil && got.Op == "ref" && f.same(got.Args[0], F(msg, n)), "the recorded %s is %v", n, got)
				}
			} else {
				chk("Type", ci(1))
			}
			// what the creator pays and gets
			var ps *Term
			for _, m := range supplyOps(u.Events, "MintCoins") {
				if m.Args[1].Op == "coins" && len(m.Args[1].Args) == 1 {
					ps = F(m.Args[1].Args[0], "Amount")
				}
			}
			supply := callT("(*"+pAmm+"."+map[bool]string{false: "BasicPool", true: "RangedPool"}[ranged]+").PoolCoinSupply", obj)
			r.ob("INITIAL-SUPPLY", at, p, f.same(ps, mkMinMax("max", []*Term{supply, param("MinInitialPoolCoinSupply")}, nil)), "the initial supply is %v", ps)
			creator := addrOf(F(msg, "Creator"))
			wants := []wantT{{"deposit", creator, res, deposit}, {"fee", creator, addrOf(param("FeeCollectorAddress")), param("PoolCreationFee")}}
			if ps != nil {
				wants = append(wants, wantT{"pool coin", modAddr(constStr("dex")), creator, coinsOf(w.coin(den, ps))})
			}
			r.exactTransfers("PAYMENTS", at, u, wants...)
		}
		// a second working basic pool
		if !ranged {
			for _, u := range w.bodiesOver(e, w.pfxIs("PoolsByPairIndex", 1)) {
				pl := w.scannedPool(u)
				if pl == nil {
					r.ob("SINGLE-BASIC", u.where(), u.pos(), dangling(u.Facts), "an existing pool is not looked up")
					continue
				}
				r.ob("SINGLE-BASIC", u.where(), u.pos(), u.Facts.has(Lit{F(pl, "Disabled"), true}) || u.Facts.contra(eqL(F(pl, "Type"), ci(1))), "a second working basic pool can be created for a pair")
			}
		}
	}
	r.floor("ONE-POOL", 1)
	r.floor("SINGLE-BASIC", 1)
	r.floor("MAX-POOLS-COUNT", 1)
	// price range accepted by the amm
	x := w.run(w.P.fn(pAmm, "", "ValidateRangedPoolParams"))
	r.ob("RANGE", "amm.ValidateRangedPoolParams", 0, x.Err == "" && len(x.Args) == 3, "cannot be analysed: %s", x.Err)
	for _, o := range x.rets() {
		if len(x.Args) != 3 || o.Vals[0].Op != "nil" {
			continue
		}
		f := o.Facts()
		mn, mx, in := x.Args[0], x.Args[1], x.Args[2]
		for i, l := range []Lit{geL(mn, w.globalT(pAmm, "MinPoolPrice"), false), geL(w.globalT(pAmm, "MaxPoolPrice"), mx, false), ltL(mn, mx, false), geL(in, mn, false), geL(mx, in, false)} {
			r.ob("RANGE", fmt.Sprintf("amm.ValidateRangedPoolParams %d", i), o.Pos, f.has(l), "a price range is accepted without %v", l)
		}
		gap := callT(mathDec+".Quo", linAdd(mx, mn, -1, nil), mn)
		r.ob("RANGE-GAP", "amm.ValidateRangedPoolParams", o.Pos, f.has(geL(gap, w.globalT(pAmm, "MinRangedPoolPriceGapRatio"), false)), "a price range is accepted without the minimum gap")
	}
	r.floor("RANGE", 1)
	r.floor("RANGE-GAP", 1)
	// what CreateBasicPool / CreateRangedPool accept
	x = w.run(w.P.fn(pAmm, "", "CreateBasicPool"), "InitialPoolCoinSupply")
	r.ob("BASIC-PRICE", "amm.CreateBasicPool", 0, x.Err == "" && len(x.Args) == 2, "cannot be analysed: %s", x.Err)
	for _, o := range x.rets() {
		if len(x.Args) != 2 || o.Vals[1].Op != "nil" {
			continue
		}
		f := o.Facts()
		rx, ry := x.Args[0], x.Args[1]
		pr := callT(mathDec+".Quo", mkToDec(rx, nil), mkToDec(ry, nil))
		for i, l := range []Lit{neL(rx, ci(0)), neL(ry, ci(0)), geL(pr, w.globalT(pAmm, "MinPoolPrice"), false), geL(w.globalT(pAmm, "MaxPoolPrice"), pr, false)} {
			r.ob("BASIC-PRICE", fmt.Sprintf("amm.CreateBasicPool %d", i), o.Pos, f.has(l), "a basic pool is accepted without %v", l)
		}
	}
	r.floor("BASIC-PRICE", 1)
	x = w.run(w.P.fn(pAmm, "", "CreateRangedPool"), "ValidateRangedPoolParams", "InitialPoolCoinSupply", "NewRangedPool", "DecApproxSqrt", "inv")
	r.ob("RANGED-CHECKED", "amm.CreateRangedPool", 0, x.Err == "" && len(x.Args) == 5, "cannot be analysed: %s", x.Err)
	for _, o := range x.rets() {
		if len(x.Args) != 5 || o.Vals[1].Op != "nil" {
			continue
		}
		f := o.Facts()
		chk := eqL(callT(pAmm+".ValidateRangedPoolParams", x.Args[2], x.Args[3], x.Args[4]), nilTerm)
		r.ob("RANGED-CHECKED", "amm.CreateRangedPool", o.Pos, f.has(chk), "a ranged pool is built without validating its price range")
		r.ob("RANGED-NONEMPTY", "amm.CreateRangedPool", o.Pos, f.has(ltL(ci(0), x.Args[0], false)) || f.has(ltL(ci(0), x.Args[1], false)), "a ranged pool is built from nothing")
		np := o.Vals[0]
		ok := np.Op == "call" && hasSuffix(np.Name, ".NewRangedPool") && len(np.Args) == 5 && np.Args[3] == x.Args[2] && np.Args[4] == x.Args[3] &&
			np.Args[2] == callT(pAmm+".InitialPoolCoinSupply", np.Args[0], np.Args[1])
		r.ob("RANGED-SHAPE", "amm.CreateRangedPool", o.Pos, ok, "a ranged pool is built as %v", np)
	}
	r.floor("RANGED-CHECKED", 1)
	r.floor("RANGED-NONEMPTY", 1)
}

func recSnap(ev *Event) *Term {
	if len(ev.Snap) == 1 && ev.Snap[0].Op == "enc" {
		return ev.Snap[0].Args[0]
	}
	return ev.Args[1]
}

// callValue is the value a simple function computes for the given arguments.
func (w *World) callValue(pkg, name string, args ...*Term) *Term {
	fn := w.P.fn(pkg, "", name)
	if fn == nil {
		return nil
	}
	in := NewInterp(w.P, defaultPolicy)
	outs := in.RunWith(fn, args, in.freshState())
	var v *Term
	for _, o := range outs {
		if o.Kind != "ret" || len(o.Vals) == 0 {
			continue
		}
		if v != nil && v != o.Vals[0] {
			return nil
		}
		v = o.Vals[0]
	}
	return v
}

// P14: creation fees and pair creation payments.
func ruleP14(w *World, r *R) {
	fees := map[string]string{"CreatePair": "PairCreationFee", "CreatePool": "PoolCreationFee", "CreateRangedPool": "PoolCreationFee"}
	coll := addrOf(param("FeeCollectorAddress"))
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis") {
		at := u.where()
		fee := fees[u.Entry.Name]
		n := 0
		for _, t := range transfers(u.Events) {
			if t.To != coll {
				continue
			}
			if !r.ob("COLLECTOR-ONLY-FEES", at, t.Ev.Pos, fee != "" && u.Out != nil, "the fee collector receives %v outside pair and pool creation", t.Coins) {
				continue
			}
			r.ob("FEE-AMOUNT", at, t.Ev.Pos, t.Coins == param(fee), "the fee charged is %v, want the parameter %s", t.Coins, fee)
			r.ob("FEE-PAYER", at, t.Ev.Pos, t.From == addrOf(F(u.Entry.Msg, "Creator")), "the fee is paid by %v", t.From)
			n++
		}
		if fee != "" && u.Out != nil {
			r.ob("FEE-ONCE", at, u.pos(), n == 1 || n == 0 && w.emptyFee(u, fee), "%s charges its fee %d times", u.Entry.Name, n)
			if u.Entry.Name == "CreatePair" {
				r.exactTransfers("PAIR-PAYMENTS", at, u, wantT{"fee", addrOf(F(u.Entry.Msg, "Creator")), coll, param(fee)})
			}
		}
	}
	r.floor("FEE-ONCE", 1)
}

// emptyFee: the path knows the fee to be zero.
func (w *World) emptyFee(u *Unit, fee string) bool {
	return u.Facts.has(isZeroCoins(param(fee))) || u.Facts.has(Lit{callT(sdkCoins+".Empty", param(fee)), true})
}

// flagged: this way round the loop sets a flag for good that is known not to
// have been set.
func flagged(u *Unit, mu *Term, i int) bool {
	for _, ev := range u.Events {
		if ev.Kind != "loop" || ev.Mus[mu] == nil {
			continue
		}
		for m, mi := range ev.Mus {
			if i >= len(mi.Backs) || !mi.Backs[i].Val.is("bool", "true") || !u.Facts.has(Lit{m, false}) {
				continue
			}
			sticky := true
			for _, b := range mi.Backs {
				sticky = sticky && (b.Val == m || b.Val.is("bool", "true"))
			}
			if sticky {
				return true
			}
		}
	}
	return false
}
