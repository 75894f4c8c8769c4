package main

import "strconv"

const (
	rqNotExecuted = 1
	rqSucceeded   = 2
	rqFailed      = 3
)

// recTerm finds the record read in this unit (events, facts) from the store
// key given; the term as of the earliest version found.
func (w *World) recTerm(u *Unit, rec string, key *Term) *Term {
	var best *Term
	look := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "dec" && x.Name == pTypes+"."+rec && len(x.Args) == 1 && x.Args[0].Op == "kvget" && x.Args[0].Args[0] == key {
				if best == nil || x.ID < best.ID {
					best = x
				}
			}
			return true
		})
	}
	for a := range u.Facts.m {
		look(a)
	}
	for _, ev := range u.Events {
		for _, a := range ev.Args {
			look(a)
		}
	}
	return best
}

// reserve is the balance of an address in a denom read before any coin
// movement of this unit.
func (w *World) reserve(u *Unit, addr, denom *Term) *Term {
	ver := ""
	if u.Loop != nil {
		ver = "mu:" + u.Loop.bankLoop()
	}
	return callT(sdkCoins+".AmountOf", mk("bankq", "SpendableCoins@"+ver, nil, addr), denom)
}

func (w *World) supply(u *Unit, denom *Term) *Term {
	ver := ""
	if u.Loop != nil {
		ver = "mu:" + u.Loop.bankLoop()
	}
	q := mk("bankq", "GetSupply@"+ver, w.coin(denom, ci(0)).Typ, denom)
	return F(q, "Amount")
}

func escrowGlobal(w *World) *Term { return w.globalT(pTypes, "GlobalEscrowAddress") }

// depletion: +1 the pool is known to be depleted, -1 known not to be.
func depletion(f *Facts) int {
	for a, v := range f.m {
		if a.Op == "call" && hasSuffix(a.Name, ".IsDepleted") {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// transferSet checks that the coin movements of a unit are exactly those
// wanted; each want is a (from, to, coins) predicate triple.
type wantT struct {
	name     string
	from, to *Term
	coins    *Term
}

func (r *R) exactTransfers(rule, at string, u *Unit, wants ...wantT) bool {
	ts := transfers(u.Events)
	used := make([]bool, len(ts))
	ok := true
	for _, wt := range wants {
		hit := isCoinsTerm(wt.coins) && u.Facts.has(isZeroCoins(wt.coins)) // moving nothing is not moving
		for i, t := range ts {
			if !used[i] && t.From == wt.from && t.To == wt.to && t.Coins != nil && u.Facts.sameDeep(t.Coins, wt.coins) {
				used[i] = true
				hit = true
				break
			}
		}
		if !r.ob(rule, at+" "+wt.name, u.pos(), hit, "missing transfer %v -> %v: %v; transfers made: %s", wt.from, wt.to, wt.coins, describe(ts)) {
			ok = false
		}
	}
	for i, t := range ts {
		if !used[i] && !(isCoinsTerm(t.Coins) && u.Facts.has(isZeroCoins(t.Coins))) {
			r.ob(rule, at+" extra", t.Ev.Pos, false, "unexpected transfer %s", describe([]Transfer{t}))
			ok = false
		}
	}
	// queued transfers take effect only when the batch of transfers runs
	for i, ev := range u.Events {
		if ev.Kind != "queue" {
			continue
		}
		n := 0
		for _, e2 := range u.Events[i:] {
			if e2.Kind == "flush" && e2.Args[0] == ev.Args[0] {
				n++
			}
		}
		r.ob(rule+"-FLUSHED", at, ev.Pos, n == 1, "a queued transfer is executed %d times", n)
	}
	return ok
}

func (u *Unit) pos() (p tokenPos) {
	if u.Out != nil {
		return u.Out.Pos
	}
	return u.Loop.Pos
}

// requestBase checks the parts common to deposit and withdraw requests.
func (w *World) requestBodies(r *R, rec string, fixed []string, settle func(u *Unit, q *Term, x recWrite, success bool)) {
	end := w.ByName["EndBlock"]
	all := w.pfxIs(rec, 0)
	for _, u := range w.bodiesOver(end, all) {
		q := w.elemOf(u, rec)
		f := u.Facts
		st := F(q, "Status")
		at := u.where()
		ws := writes(u.Events, rec)
		if !f.has(eqL(st, ci(rqNotExecuted))) {
			r.ob("ONLY-PENDING", at, u.pos(), f.contra(eqL(st, ci(rqNotExecuted))) && len(kvsets(u.Events)) == 0 && len(transfers(u.Events)) == 0 && len(supplyOps(u.Events, "MintCoins"))+len(supplyOps(u.Events, "BurnCoins")) == 0,
				"a request that is not known to be pending has effects, or a pending one is passed over")
			continue
		}
		if !r.ob("SETTLED-ONCE", at, u.pos(), len(ws) == 1 && ws[0].Base == q, "a pending request is finally written %d times", len(ws)) {
			continue
		}
		x := ws[0]
		ns := F(x.Val, "Status")
		if !r.ob("TERMINAL", at, x.Ev.Pos, ns == ci(rqSucceeded) || ns == ci(rqFailed), "a processed request is stored with status %v", ns) {
			continue
		}
		for _, fld := range fixed {
			r.ob("TERMS-FIXED", at+" "+fld, x.Ev.Pos, f.same(F(x.Val, fld), F(q, fld)), "the request's %s changes while it is processed", fld)
		}
		settle(u, q, x, ns == ci(rqSucceeded))
	}
	r.ob("ALL-REQUESTS", "EndBlock", end.Fn.Pos(), len(w.earlyExits(end, all)) == 0, "the scan of pending requests can stop before its end")
	for _, u := range w.Units(end) {
		if u.Out == nil {
			continue
		}
		n, pairs, orders, idx := 0, -1, -1, -1
		for i, ev := range u.Events {
			if ev.Kind == "kviter" && all(ev.Args[0]) {
				n++
				idx = i
			}
			if ev.Kind == "kviter" && w.prefixOf(ev.Args[0], "Pair", 0) {
				pairs = i
			}
			if ev.Kind == "kviter" && w.prefixOf(ev.Args[0], "Order", 0) {
				orders = i
			}
		}
		if pairs < 0 && n == 0 && orders < 0 {
			continue // block that does not end a batch
		}
		r.ob("EVERY-BATCH", "EndBlock", end.Fn.Pos(), n == 1 && pairs >= 0 && idx > pairs, "a batch ends with %d scans of requests (position %d, matching at %d)", n, idx, pairs)
	}
	r.floor("SETTLED-ONCE", 1)
	r.floor("EVERY-BATCH", 1)
	// only creation and the end of the batch write requests
	for _, u := range w.AllUnits("msg", "begin", "end") {
		in := false
		for _, b := range w.bodyOfPrefix(u, all) {
			_ = b
			in = true
		}
		for _, x := range writes(u.Events, rec) {
			if u.Entry.Kind == "end" && in {
				continue
			}
			r.ob("WHO-WRITES", u.where(), x.Ev.Pos, u.Entry.Name+"Request" == rec && x.Base == nil, "a %s is written by %s", rec, u.Entry.Name)
		}
	}
}

// P07: deposit requests.
func ruleP07(w *World, r *R) {
	e := w.ByName["Deposit"]
	msg := e.Msg
	pool := w.stored("Pool", F(msg, "PoolId"))
	pair := w.stored("Pair", F(pool, "PairId"))
	esc := escrowGlobal(w)
	maxAmt := w.globalT(pAmm, "MaxCoinAmount")
	for _, u := range w.Units(e) {
		f := u.Facts
		if u.Out == nil {
			r.ob("REQUEST-LOOP", u.where(), u.pos(), len(kvsets(u.Events))+len(transfers(u.Events)) == 0, "effects inside a loop of the deposit handler")
			continue
		}
		p := u.Out.Pos
		ws := writes(u.Events, "DepositRequest")
		if !r.ob("ONE-REQUEST", "Deposit", p, len(ws) == 1 && ws[0].Base == nil, "a deposit stores %d requests", len(ws)) {
			continue
		}
		q := ws[0].Val
		chk := func(name string, got *Term, ok bool) {
			r.ob("RECORD-"+name, "Deposit", ws[0].Ev.Pos, ok, "stored %s is %v", name, got)
		}
		chk("Depositor", F(q, "Depositor"), f.same(F(q, "Depositor"), F(msg, "Depositor")))
		chk("PoolId", F(q, "PoolId"), f.same(F(q, "PoolId"), F(msg, "PoolId")))
		chk("DepositCoins", F(q, "DepositCoins"), f.same(F(q, "DepositCoins"), F(msg, "DepositCoins")))
		chk("AcceptedCoins", F(q, "AcceptedCoins"), isEmptyCoins(F(q, "AcceptedCoins")))
		chk("MintedPoolCoin", F(q, "MintedPoolCoin"), f.sameDeep(F(q, "MintedPoolCoin"), w.coin(F(pool, "PoolCoinDenom"), ci(0))))
		chk("Status", F(q, "Status"), F(q, "Status") == ci(rqNotExecuted))
		r.exactTransfers("ESCROW", "Deposit", u, wantT{"escrow", addrOf(F(msg, "Depositor")), esc, F(msg, "DepositCoins")})
		r.ob("NO-SUPPLY", "Deposit", p, len(supplyOps(u.Events, "MintCoins"))+len(supplyOps(u.Events, "BurnCoins")) == 0, "a deposit request mints or burns coins")
		need := func(rule string, ls ...Lit) {
			ok := false
			for _, l := range ls {
				ok = ok || f.has(l)
			}
			r.ob(rule, "Deposit", p, ok, "a deposit is accepted on a path where %v is not established", ls)
		}
		need("POOL-EXISTS", neL(pool.Args[0], nilTerm))
		need("POOL-ENABLED", Lit{F(pool, "Disabled"), false})
		n := mkLen(F(msg, "DepositCoins"))
		need("BASIC-TWO-COINS", eqL(n, ci(2)), neL(F(pool, "Type"), ci(1)))
		for _, d := range []string{"QuoteCoinDenom", "BaseCoinDenom"} {
			sum := linAdd(w.reserve(u, addrOf(F(pool, "ReserveAddress")), F(pair, d)), callT(sdkCoins+".AmountOf", F(msg, "DepositCoins"), F(pair, d)), 1, nil)
			need("MAX-"+d, geL(maxAmt, sum, false))
		}
		r.everyElem("DENOMS-IN-PAIR", "Deposit", u, F(msg, "DepositCoins"), func(f *Facts, el *Term) bool {
			return f.has(eqL(F(el, "Denom"), F(pair, "QuoteCoinDenom"))) || f.has(eqL(F(el, "Denom"), F(pair, "BaseCoinDenom")))
		})
	}
	r.floor("ONE-REQUEST", 1)
	r.floor("DENOMS-IN-PAIR", 1)
	w.requestBodies(r, "DepositRequest", []string{"Id", "PoolId", "MsgHeight", "Depositor", "DepositCoins"}, func(u *Unit, q *Term, x recWrite, success bool) {
		f, at := u.Facts, u.where()
		dep := addrOf(F(q, "Depositor"))
		pool := w.recTerm(u, "Pool", w.key("Pool", F(q, "PoolId")))
		if !r.ob("POOL", at, u.pos(), pool != nil, "the request's pool is not looked up") {
			return
		}
		pair := w.recTerm(u, "Pair", w.key("Pair", F(pool, "PairId")))
		var calc *Term
		if pair != nil {
			rsv := addrOf(F(pool, "ReserveAddress"))
			calc = callT(pAmm+".Deposit", w.reserve(u, rsv, F(pair, "QuoteCoinDenom")), w.reserve(u, rsv, F(pair, "BaseCoinDenom")), w.supply(u, F(pool, "PoolCoinDenom")),
				callT(sdkCoins+".AmountOf", F(q, "DepositCoins"), F(pair, "QuoteCoinDenom")), callT(sdkCoins+".AmountOf", F(q, "DepositCoins"), F(pair, "BaseCoinDenom")))
		}
		mints := supplyOps(u.Events, "MintCoins")
		r.ob("NO-BURN", at, u.pos(), len(supplyOps(u.Events, "BurnCoins")) == 0, "a deposit burns coins")
		if !success {
			r.ob("FAIL-NO-MINT", at, u.pos(), len(mints) == 0, "a failed deposit mints pool coins")
			want := F(q, "DepositCoins")
			for _, t := range transfers(u.Events) {
				// coins accepted before: none, the request was pending
				if t.Coins != nil && t.Coins.Op == "call" && hasSuffix(t.Coins.Name, ".Sub") && t.Coins.Args[0] == want && t.Coins.Args[1] == F(q, "AcceptedCoins") {
					want = t.Coins
				}
			}
			if f.has(isZeroCoins(want)) || f.has(isZeroCoins(callT(sdkCoins+".Sub", want, F(q, "AcceptedCoins")))) {
				r.exactTransfers("FAIL-REFUND", at, u)
			} else {
				r.exactTransfers("FAIL-REFUND", at, u, wantT{"refund", esc, dep, want})
			}
			r.ob("FAIL-RECORD", at, x.Ev.Pos, f.sameDeep(F(x.Val, "AcceptedCoins"), F(q, "AcceptedCoins")) && f.sameDeep(F(x.Val, "MintedPoolCoin"), F(q, "MintedPoolCoin")), "a failed deposit records accepted or minted coins")
			why := f.has(Lit{F(pool, "Disabled"), true}) || depletion(f) == 1 || calc != nil && zeroish(f, proj(calc, 2))
			r.ob("FAIL-REASON", at, u.pos(), why, "a deposit fails although the pool is enabled, not depleted and would mint pool coins")
			return
		}
		if !r.ob("CALC", at, u.pos(), calc != nil, "the request's pair is not looked up") {
			return
		}
		r.ob("SUCCESS-POOL", at, u.pos(), f.has(Lit{F(pool, "Disabled"), false}) && depletion(f) == -1, "a deposit into a disabled or depleted pool can succeed")
		pc := proj(calc, 2)
		minted := w.coin(F(pool, "PoolCoinDenom"), pc)
		accepted := coinsOf(w.coin(F(pair, "QuoteCoinDenom"), proj(calc, 0)), w.coin(F(pair, "BaseCoinDenom"), proj(calc, 1)))
		r.ob("SUCCESS-MINTS", at, u.pos(), f.has(neL(pc, ci(0))) || f.has(ltL(ci(0), pc, false)), "a deposit that mints nothing succeeds")
		r.ob("MINT", at, u.pos(), len(mints) == 1 && f.sameDeep(mints[0].Args[1], coinsOf(minted)), "a deposit mints %v, want %v", evArgs(mints), minted)
		refund := callT(sdkCoins+".Sub", F(q, "DepositCoins"), accepted)
		wants := []wantT{{"accepted", esc, addrOf(F(pool, "ReserveAddress")), accepted}, {"minted", modAddr(constStr("dex")), dep, coinsOf(minted)}}
		if !f.has(isZeroCoins(refund)) {
			wants = append(wants, wantT{"refund", esc, dep, refund})
		}
		r.exactTransfers("SETTLE", at, u, wants...)
		r.ob("RECORD-ACCEPTED", at, x.Ev.Pos, f.sameDeep(F(x.Val, "AcceptedCoins"), accepted), "recorded accepted coins: %v", F(x.Val, "AcceptedCoins"))
		r.ob("RECORD-MINTED", at, x.Ev.Pos, f.sameDeep(F(x.Val, "MintedPoolCoin"), minted), "recorded minted coin: %v", F(x.Val, "MintedPoolCoin"))
	})
	r.floor("MINT", 1)
	r.floor("FAIL-REFUND", 1)
	w.cleanup(r, w.ByName["BeginBlock"], "DepositRequest", []int{rqNotExecuted}, []int{rqSucceeded, rqFailed}, func(o *Term) []*Term {
		return []*Term{w.key("DepositRequest", F(o, "PoolId"), F(o, "Id")), w.reqIndexKey("DepositRequestIndex", F(o, "Depositor"), o)}
	})
}

func (w *World) reqIndexKey(pfx string, owner, o *Term) *Term {
	return mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx[pfx])),
		mk("lenpfx", "", nil, addrOf(owner)), mk("u64be", "", nil, F(o, "PoolId")), mk("u64be", "", nil, F(o, "Id")))
}

func isZeroCoins(c *Term) Lit {
	if c.Op == "coins" && len(c.Args) == 1 {
		if c.Args[0].Op == "struct" {
			return eqL(c.Args[0].Args[1], ci(0))
		}
		if a := F(c.Args[0], "Amount"); a != nil {
			return eqL(a, ci(0))
		}
	}
	return Lit{callT(sdkCoins+".IsZero", c), true}
}

func isCoinsTerm(t *Term) bool { return t != nil && (t.Op == "coins" || t.Op == "call") }

// zeroish: an amount that is never negative is known to be zero.
func zeroish(f *Facts, x *Term) bool {
	if f.has(eqL(x, ci(0))) || f.has(geL(ci(0), x, false)) {
		return true
	}
	for a, v := range f.m { // a sum of such amounts is
		if !(a.Op == "eq" && v || a.Op == "lt" && !v) {
			continue
		}
		d := linAdd(a.Args[1], a.Args[0], -1, nil) // = 0, or not above 0
		ls := []linForm{toLin(d)}
		if a.Op == "eq" {
			ls = append(ls, toLin(linNeg(d, nil)))
		}
		for _, l := range ls {
			if l.c.Sign() == 0 && l.co[x] != nil && allPositive(l) {
				return true
			}
		}
	}
	return false
}

func allPositive(l linForm) bool {
	for _, c := range l.co {
		if c.Sign() < 0 {
			return false
		}
	}
	return true
}

func isEmptyCoins(t *Term) bool {
	return t != nil && (t.Op == "nil" || t.Op == "coins" && len(t.Args) == 0 || t.Op == "list" && len(t.Args) == 0)
}

func proj(t *Term, i int) *Term { return mk("res", strconv.Itoa(i), nil, t) }

func evArgs(evs []*Event) []string {
	var ss []string
	for _, e := range evs {
		s := e.Name
		for _, a := range e.Args {
			s += " " + a.String()
		}
		ss = append(ss, s)
	}
	return ss
}

// everyElem: on this outcome a loop examined every element of the list and
// each examined element satisfies ok.
func (r *R) everyElem(rule, at string, u *Unit, list *Term, ok func(f *Facts, el *Term) bool) {
	found, why := everyElem(u, list, ok)
	r.ob(rule, at, u.pos(), found, "not every element is checked: %s", why)
}

func everyElem(u *Unit, list *Term, ok func(f *Facts, el *Term) bool) (bool, string) {
	found := false
	// a list of known length is walked element by element
	for n := 1; n <= 4; n++ {
		if !u.Facts.has(eqL(mkLen(list), ci(n))) {
			continue
		}
		found = true
		for i := 0; i < n; i++ {
			var el *Term
			for a := range u.Facts.m {
				a.walk(func(t *Term) bool {
					if t.Op == "elem" && t.Args[0] == list && t.Args[1] == ci(i) {
						el = t
					}
					return el == nil
				})
			}
			if el == nil || !ok(u.Facts, el) {
				found = false
			}
		}
	}
	why := "no loop over all of them"
	for _, ev := range u.Events {
		if ev.Kind != "loop" || len(ev.Bodies) == 0 {
			continue
		}
		good, complete := true, true
		for _, b := range ev.Bodies {
			var el *Term
			for a := range b.Facts.m {
				a.walk(func(t *Term) bool {
					if t.Op == "elem" && t.Args[0] == list {
						el = t
					}
					return el == nil
				})
			}
			if el == nil || !ok(b.Facts, el) {
				good = false
			}
		}
		if !good {
			continue
		}
		complete = loopExhausted(u.Facts, ev, list)
		if complete {
			found = true
		} else {
			why = "the loop can stop early"
		}
	}
	return found, why
}

// loopExhausted: the outcome's facts say the loop index has passed the end of
// the list.
func loopExhausted(f *Facts, ev *Event, list *Term) bool {
	n := mkLen(list)
	for a, v := range f.m {
		if a.Op == "lt" && !v && a.Args[1] == n && a.Args[0].contains(func(t *Term) bool { return t.Op == "mu" }) {
			return true
		}
		if a.Op == "lt" && v && a.Args[0] == n {
			return true
		}
		if a.Op == "eq" && v && (a.Args[0] == n || a.Args[1] == n) && a.contains(func(t *Term) bool { return t.Op == "mu" }) {
			return true
		}
	}
	return false
}

// P08: withdraw requests.
func ruleP08(w *World, r *R) {
	e := w.ByName["Withdraw"]
	msg := e.Msg
	pool := w.stored("Pool", F(msg, "PoolId"))
	esc := escrowGlobal(w)
	for _, u := range w.Units(e) {
		f := u.Facts
		if u.Out == nil {
			r.ob("REQUEST-LOOP", u.where(), u.pos(), len(kvsets(u.Events))+len(transfers(u.Events)) == 0, "effects inside a loop of the withdraw handler")
			continue
		}
		p := u.Out.Pos
		ws := writes(u.Events, "WithdrawRequest")
		if !r.ob("ONE-REQUEST", "Withdraw", p, len(ws) == 1 && ws[0].Base == nil, "a withdrawal stores %d requests", len(ws)) {
			continue
		}
		q := ws[0].Val
		chk := func(name string, got *Term, ok bool) {
			r.ob("RECORD-"+name, "Withdraw", ws[0].Ev.Pos, ok, "stored %s is %v", name, got)
		}
		chk("Withdrawer", F(q, "Withdrawer"), f.same(F(q, "Withdrawer"), F(msg, "Withdrawer")))
		chk("PoolId", F(q, "PoolId"), f.same(F(q, "PoolId"), F(msg, "PoolId")))
		chk("PoolCoin", F(q, "PoolCoin"), f.sameDeep(F(q, "PoolCoin"), F(msg, "PoolCoin")))
		chk("WithdrawnCoins", F(q, "WithdrawnCoins"), isEmptyCoins(F(q, "WithdrawnCoins")))
		chk("Status", F(q, "Status"), F(q, "Status") == ci(rqNotExecuted))
		r.exactTransfers("ESCROW", "Withdraw", u, wantT{"escrow", addrOf(F(msg, "Withdrawer")), esc, coinsOf(F(msg, "PoolCoin"))})
		r.ob("NO-SUPPLY", "Withdraw", p, len(supplyOps(u.Events, "MintCoins"))+len(supplyOps(u.Events, "BurnCoins")) == 0, "a withdraw request mints or burns coins")
		need := func(rule string, l Lit) {
			r.ob(rule, "Withdraw", p, f.has(l), "a withdrawal is accepted on a path where %v is not established", l)
		}
		need("POOL-EXISTS", neL(pool.Args[0], nilTerm))
		need("POOL-ENABLED", Lit{F(pool, "Disabled"), false})
		need("POOL-COIN", eqL(F(msg, "PoolCoin", "Denom"), F(pool, "PoolCoinDenom")))
	}
	r.floor("ONE-REQUEST", 1)
	w.requestBodies(r, "WithdrawRequest", []string{"Id", "PoolId", "MsgHeight", "Withdrawer", "PoolCoin"}, func(u *Unit, q *Term, x recWrite, success bool) {
		f, at := u.Facts, u.where()
		wd := addrOf(F(q, "Withdrawer"))
		pool := w.recTerm(u, "Pool", w.key("Pool", F(q, "PoolId")))
		if !r.ob("POOL", at, u.pos(), pool != nil, "the request's pool is not looked up") {
			return
		}
		pair := w.recTerm(u, "Pair", w.key("Pair", F(pool, "PairId")))
		burns := supplyOps(u.Events, "BurnCoins")
		r.ob("NO-MINT", at, u.pos(), len(supplyOps(u.Events, "MintCoins")) == 0, "a withdrawal mints coins")
		var calc *Term
		ps := w.supply(u, F(pool, "PoolCoinDenom"))
		if pair != nil {
			rsv := addrOf(F(pool, "ReserveAddress"))
			calc = callT(pAmm+".Withdraw", w.reserve(u, rsv, F(pair, "QuoteCoinDenom")), w.reserve(u, rsv, F(pair, "BaseCoinDenom")), ps,
				F(q, "PoolCoin", "Amount"), param("WithdrawFeeRate"))
		}
		if !success {
			r.ob("FAIL-NO-BURN", at, u.pos(), len(burns) == 0, "a failed withdrawal burns pool coins")
			r.exactTransfers("FAIL-REFUND", at, u, wantT{"refund", esc, wd, coinsOf(F(q, "PoolCoin"))})
			r.ob("FAIL-RECORD", at, x.Ev.Pos, f.sameDeep(F(x.Val, "WithdrawnCoins"), F(q, "WithdrawnCoins")), "a failed withdrawal records withdrawn coins")
			why := f.has(Lit{F(pool, "Disabled"), true}) || depletion(f) == 1 || calc != nil && zeroish(f, proj(calc, 0)) && zeroish(f, proj(calc, 1))
			r.ob("FAIL-REASON", at, u.pos(), why, "a withdrawal fails although the pool is enabled, not depleted and would pay something out")
			return
		}
		if !r.ob("CALC", at, u.pos(), calc != nil, "the request's pair is not looked up") {
			return
		}
		r.ob("SUCCESS-POOL", at, u.pos(), f.has(Lit{F(pool, "Disabled"), false}) && depletion(f) == -1, "a withdrawal from a disabled or depleted pool can succeed")
		pays := false
		for i := 0; i < 2; i++ {
			pays = pays || f.has(neL(proj(calc, i), ci(0))) || f.has(ltL(ci(0), proj(calc, i), false))
		}
		sum := linAdd(proj(calc, 0), proj(calc, 1), 1, nil)
		pays = pays || f.has(neL(sum, ci(0))) || f.has(ltL(ci(0), sum, false))
		r.ob("SUCCESS-PAYS", at, u.pos(), pays, "a withdrawal that pays nothing out succeeds")
		out := coinsOf(w.coin(F(pair, "QuoteCoinDenom"), proj(calc, 0)), w.coin(F(pair, "BaseCoinDenom"), proj(calc, 1)))
		r.ob("BURN", at, u.pos(), len(burns) == 1 && f.sameDeep(burns[0].Args[1], coinsOf(F(q, "PoolCoin"))), "a withdrawal burns %v, want the request's pool coin", evArgs(burns))
		r.exactTransfers("SETTLE", at, u, wantT{"pool coin", esc, modAddr(constStr("dex")), coinsOf(F(q, "PoolCoin"))}, wantT{"payout", addrOf(F(pool, "ReserveAddress")), wd, out})
		r.ob("RECORD-WITHDRAWN", at, x.Ev.Pos, f.sameDeep(F(x.Val, "WithdrawnCoins"), out), "recorded withdrawn coins: %v", F(x.Val, "WithdrawnCoins"))
	})
	r.floor("BURN", 1)
	r.floor("FAIL-REFUND", 1)
	w.cleanup(r, w.ByName["BeginBlock"], "WithdrawRequest", []int{rqNotExecuted}, []int{rqSucceeded, rqFailed}, func(o *Term) []*Term {
		return []*Term{w.key("WithdrawRequest", F(o, "PoolId"), F(o, "Id")), w.reqIndexKey("WithdrawRequestIndex", F(o, "Withdrawer"), o)}
	})
}
