package main

// A request is refused only for a stated reason: every path of a message
// handler that returns an error made there carries a fact that is one of the
// reasons, exactly; other errors are handed on from what was asked to act.

func ruleP51(w *World, r *R) {
	tp := param("TickPrecision")
	ratio := param("MaxPriceLimitRatio")
	down := func(p *Term) *Term { return callT(pAmm+".PriceToDownTick", p, tp) }
	up := func(p *Term) *Term { return callT(pAmm+".PriceToUpTick", p, tp) }
	minAmt, maxAmt := w.globalT(pAmm, "MinCoinAmount"), w.globalT(pAmm, "MaxCoinAmount")
	all := func(f *Facts, ls ...Lit) bool {
		for _, l := range ls {
			if !f.has(l) {
				return false
			}
		}
		return true
	}
	any := func(f *Facts, ls ...Lit) bool {
		for _, l := range ls {
			if f.has(l) {
				return true
			}
		}
		return false
	}
	missing := func(rec string, ids ...*Term) Lit { return eqL(w.kv(w.key(rec, ids...)), nilTerm) }
	// outside: a deposit coin is in neither denom of the pair
	outside := func(f *Facts, coins, base, quote *Term) bool {
		for a, v := range f.m {
			if a.Op != "eq" || v {
				continue
			}
			for _, t := range a.Args {
				if t.Op == "field" && t.Name == "Denom" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == coins && all(f, neL(t, base), neL(t, quote)) {
					return true
				}
			}
		}
		return false
	}
	// fewer: some count of these is not below the parameter
	full := func(f *Facts, name string, of func(*Term) bool) bool {
		for a, v := range f.m {
			if a.Op == "lt" && !v && a.Args[1] == param(name) && of(a.Args[0]) {
				return true
			}
		}
		return false
	}
	reasons := map[string]func(e *Entry, u *Unit, f *Facts) bool{}
	for _, om := range orderMsgs {
		om := om
		reasons[om.name] = func(e *Entry, u *Unit, f *Facts) bool {
			msg := e.Msg
			pair := w.stored("Pair", F(msg, "PairId"))
			offer, amt := F(msg, "OfferCoin"), F(msg, "Amount")
			spend := callT(sdkCoins+".AmountOf", mk("bankq", "SpendableCoins@", nil, addrOf(F(msg, "Orderer"))), F(offer, "Denom"))
			if any(f, ltL(spend, F(offer, "Amount"), false), ltL(param("MaxOrderLifespan"), F(msg, "OrderLifespan"), true), missing("Pair", F(msg, "PairId"))) {
				return true
			}
			lastPtr := F(pair, "LastPrice")
			last := mk("deref", "", nil, lastPtr)
			more, less := decMul(last, linAdd(constInt(1), ratio, 1, nil)), decMul(last, linAdd(constInt(1), ratio, -1, nil))
			if om.typ == "market" {
				if f.has(eqL(lastPtr, nilTerm)) {
					return true
				}
			} else {
				price := F(msg, "Price")
				switch {
				case f.has(eqL(lastPtr, nilTerm)):
					if any(f, ltL(callT(pAmm+".HighestTick", tp), price, false), ltL(price, callT(pAmm+".LowestTick", tp), false)) {
						return true
					}
				case f.has(neL(lastPtr, nilTerm)):
					if any(f, ltL(down(more), price, false), ltL(price, up(less), false)) {
						return true
					}
				}
				k := w.mmKey(F(msg, "Orderer"), F(msg, "PairId"))
				if om.typ == "mm" && all(f, eqL(w.kv(k), nilTerm), eqL(param("MaxNumMarketMakingOrdersPerPair"), ci(0))) {
					return true
				}
				if om.typ == "mm" && full(f, "MaxNumMarketMakingOrdersPerPair", func(t *Term) bool {
					return unconv(t).Op != "lin" && t.contains(func(x *Term) bool { return x.Op == "kvget" && x.Args[0] == k })
				}) {
					return true
				}
			}
			give, get := F(pair, "QuoteCoinDenom"), F(pair, "BaseCoinDenom")
			var at, need *Term
			switch {
			case f.has(eqL(F(msg, "Direction"), ci(1))):
				at = down(more)
				if om.typ != "market" {
					at = down(F(msg, "Price"))
				}
				need = callT(mathDec+".TruncateInt", callT(mathDec+".Ceil", callT(mathDec+".MulInt", at, amt)))
			case f.has(eqL(F(msg, "Direction"), ci(2))):
				give, get = get, give
				at = up(less)
				if om.typ != "market" {
					at = up(F(msg, "Price"))
				}
				need = amt
			default:
				return false
			}
			return any(f, neL(F(offer, "Denom"), give), neL(F(msg, "DemandCoinDenom"), get),
				ltL(F(offer, "Amount"), need, false),
				ltL(amt, minAmt, false), ltL(callT(mathDec+".MulInt", at, amt), mkToDec(minAmt, nil), false))
		}
	}
	reasons["CreatePair"] = func(e *Entry, u *Unit, f *Facts) bool {
		// the two coins already have a pair
		a, b := F(e.Msg, "BaseCoinDenom"), F(e.Msg, "QuoteCoinDenom")
		if any(f, eqL(mkLen(a), ci(0)), eqL(mkLen(b), ci(0))) {
			return true // not a valid denom
		}
		for t, v := range f.m {
			if t.Op != "isnil" || v || t.Args[0].Op != "kvget" {
				continue
			}
			first := func(x, y *Term) int {
				for i, p := range x.Args {
					if p.contains(func(z *Term) bool { return z == y }) {
						return i
					}
				}
				return -1
			}
			if t.Args[0].contains(func(x *Term) bool {
				if x.Op != "cat" || len(x.Args) < 3 || x.Args[0] != mk("byte", "", nil, constInt(w.Pfx["PairIndex"])) {
					return false
				}
				i, j := first(x, a), first(x, b)
				return i > 0 && j > i
			}) {
				return true
			}
		}
		return false
	}
	pools := func(ranged bool) func(e *Entry, u *Unit, f *Facts) bool {
		return func(e *Entry, u *Unit, f *Facts) bool {
			msg := e.Msg
			pair := w.stored("Pair", F(msg, "PairId"))
			base, quote := F(pair, "BaseCoinDenom"), F(pair, "QuoteCoinDenom")
			coins := F(msg, "DepositCoins")
			byPair := w.pfxIs("PoolsByPairIndex", 1)
			counted := func(t *Term) bool {
				t = unconv(t)
				if t.Op != "mu" {
					return t.Op == "len"
				}
				// only pools at work count
				for _, ev := range allEvents(u.Events) {
					if ev.Kind != "loop" || ev.Mus[t] == nil {
						continue
					}
					for i, b := range ev.Mus[t].Backs {
						if b.Val == t {
							continue
						}
						works := dangling(ev.Bodies[i].Facts)
						for a, v := range ev.Bodies[i].Facts.m {
							works = works || a.Op == "field" && a.Name == "Disabled" && !v
						}
						if !works || linAdd(b.Val, t, -1, nil) != ci(1) {
							return false
						}
					}
				}
				return true
			}
			if f.has(missing("Pair", F(msg, "PairId"))) || outside(f, coins, base, quote) || full(f, "MaxNumActivePoolsPerPair", counted) {
				return true
			}
			minInit := param("MinInitialDepositAmount")
			if !ranged {
				for a, v := range f.m {
					if a.Op == "lt" && v && a.Args[1] == minInit && a.Args[0].Op == "field" && a.Args[0].Name == "Amount" && a.Args[0].Args[0].Op == "elem" && a.Args[0].Args[0].Args[0] == coins {
						return true
					}
					if a.Op == "field" && a.Name == "Disabled" && !v && all(f, eqL(F(a.Args[0], "Type"), ci(1)), neL(a.Args[0].Args[0], nilTerm)) && a.contains(func(x *Term) bool {
						return x.Op == "iter" && byPair(x.Args[0]) && x.Args[0].contains(func(y *Term) bool { return y == F(msg, "PairId") })
					}) {
						return true // a basic pool at work
					}
				}
				return false
			}
			x, y := callT(sdkCoins+".AmountOf", coins, quote), callT(sdkCoins+".AmountOf", coins, base)
			made := callT(pAmm+".CreateRangedPool", x, y, F(msg, "MinPrice"), F(msg, "MaxPrice"), F(msg, "InitialPrice"))
			bal := callT("(*"+pAmm+".RangedPool).Balances", proj(made, 0))
			if all(f, ltL(proj(bal, 0), minInit, false), ltL(proj(bal, 1), minInit, false)) {
				return true
			}
			for _, n := range []string{"MinPrice", "MaxPrice", "InitialPrice"} {
				if f.has(neL(F(msg, n), down(F(msg, n)))) {
					return true
				}
			}
			return f.has(ltL(F(msg, "MinPrice"), callT(pAmm+".LowestTick", tp), false))
		}
	}
	reasons["CreatePool"], reasons["CreateRangedPool"] = pools(false), pools(true)
	reasons["Deposit"] = func(e *Entry, u *Unit, f *Facts) bool {
		msg := e.Msg
		pool := w.stored("Pool", F(msg, "PoolId"))
		pair := w.stored("Pair", F(pool, "PairId"))
		base, quote := F(pair, "BaseCoinDenom"), F(pair, "QuoteCoinDenom")
		coins := F(msg, "DepositCoins")
		if f.has(missing("Pair", F(pool, "PairId"))) {
			return true // not in a consistent store (P24)
		}
		if any(f, missing("Pool", F(msg, "PoolId")), Lit{F(pool, "Disabled"), true}) || outside(f, coins, base, quote) {
			return true
		}
		if all(f, neL(mkLen(coins), ci(2)), eqL(F(pool, "Type"), ci(1))) {
			return true
		}
		for _, d := range []*Term{quote, base} {
			sum := linAdd(w.reserve(u, addrOf(F(pool, "ReserveAddress")), d), callT(sdkCoins+".AmountOf", coins, d), 1, nil)
			if f.has(ltL(maxAmt, sum, false)) {
				return true
			}
		}
		return false
	}
	reasons["Withdraw"] = func(e *Entry, u *Unit, f *Facts) bool {
		pool := w.stored("Pool", F(e.Msg, "PoolId"))
		return any(f, missing("Pool", F(e.Msg, "PoolId")), Lit{F(pool, "Disabled"), true}, neL(F(e.Msg, "PoolCoin", "Denom"), F(pool, "PoolCoinDenom")))
	}
	reasons["CancelOrder"] = func(e *Entry, u *Unit, f *Facts) bool {
		msg := e.Msg
		ord := w.stored("Order", F(msg, "PairId"), F(msg, "OrderId"))
		pair := w.stored("Pair", F(msg, "PairId"))
		if f.has(missing("Pair", F(msg, "PairId"))) {
			return true // no order without a pair
		}
		return any(f, missing("Order", F(msg, "PairId"), F(msg, "OrderId")), neL(F(msg, "Orderer"), F(ord, "Orderer")),
			eqL(F(ord, "Status"), ci(stCanceled)), eqL(F(ord, "Status"), ci(stCompleted)), eqL(F(ord, "Status"), ci(stExpired)),
			eqL(F(ord, "BatchId"), F(pair, "CurrentBatchId")), geL(F(ord, "BatchId"), F(pair, "CurrentBatchId"), true))
	}
	reasons["CancelAllOrders"] = func(e *Entry, u *Unit, f *Facts) bool {
		for a, v := range f.m {
			if a.Op == "isnil" && v && a.Args[0].Op == "kvget" && w.pfxIs("Pair", 1)(a.Args[0].Args[0]) {
				k := a.Args[0].Args[0].Args[1]
				if k.Op == "u64be" && k.Args[0].Op == "elem" && k.Args[0].Args[0] == F(e.Msg, "PairIds") {
					return true
				}
			}
		}
		return false
	}
	reasons["UpdateParams"] = func(e *Entry, u *Unit, f *Facts) bool {
		for a, v := range f.m {
			if a.Op == "eq" && !v && (a.Args[0] == F(e.Msg, "Authority") || a.Args[1] == F(e.Msg, "Authority")) {
				return true
			}
		}
		return false
	}
	for _, e := range w.Entries {
		if e.Kind != "msg" {
			continue
		}
		why := reasons[e.Name]
		if !r.ob("REFUSE", e.Name, e.Fn.Pos(), why != nil, "no reasons are stated to refuse %s", e.Name) {
			continue
		}
		for _, o := range e.Outs {
			if o.Kind != "ret" {
				continue
			}
			v := o.Vals[len(o.Vals)-1]
			f := o.St.facts
			if v == nilTerm || f.has(isNilL(v)) {
				continue
			}
			// handed on from what was asked to act
			on := false
			v.contains(func(x *Term) bool {
				if x.Op == "errres" || x.Op == "res" || x.Op == "call" {
					on = on || f.has(notL(isNilL(x)))
				}
				return false
			})
			if on {
				r.ob("HANDED-ON", e.Name, o.Pos, true, "")
				continue
			}
			u := &Unit{Entry: e, Events: o.Events(), Facts: f, Out: o}
			r.ob("REFUSE", e.Name, o.Pos, why(e, u, f), "%s is refused (%v) without a stated reason; facts: %v", e.Name, v, f.list())
		}
	}
	r.floor("REFUSE", 100)
	r.floor("HANDED-ON", 20)
}
