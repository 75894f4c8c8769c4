package main

import "fmt"

const (
	stNotExecuted = 1
	stNotMatched  = 2
	stPartial     = 3
	stCompleted   = 4
	stCanceled    = 5
	stExpired     = 6
)

var orderMsgs = []struct {
	name, typ string
	num       int64
}{{"LimitOrder", "limit", 1}, {"MarketOrder", "market", 2}, {"MMOrder", "mm", 3}}

func ci(n int) *Term { return constInt(int64(n)) }

// orderCreations lists order records written that are not updates.
func orderCreations(evs []*Event) []recWrite {
	var r []recWrite
	for _, x := range writes(evs, "Order") {
		if x.Base == nil {
			r = append(r, x)
		}
	}
	return r
}

// P01: order placement escrows exactly what the stored order records.
func ruleP01(w *World, r *R) {
	for _, om := range orderMsgs {
		e := w.ByName[om.name]
		msg := e.Msg
		pair := w.stored("Pair", F(msg, "PairId"))
		for _, u := range w.Units(e) {
			if u.Out == nil {
				r.ob("ESCROW-LOOP", u.where(), u.Loop.Pos, len(transfers(u.Events)) == 0 && len(writes(u.Events, "Order")) == 0, "coins or orders move inside a loop of order placement")
				continue
			}
			cs := orderCreations(u.Events)
			if !r.ob("ONE-ORDER", om.name, u.Out.Pos, len(cs) == 1 && len(writes(u.Events, "Order")) == 1, "a successful placement writes %d orders, want exactly 1", len(writes(u.Events, "Order"))) {
				continue
			}
			o, ev := cs[0].Val, cs[0].Ev
			f := u.Facts
			ts := transfers(u.Events)
			ok := len(ts) == 1 && !ts[0].Queued && ts[0].From == addrOf(F(msg, "Orderer")) && ts[0].To == addrOf(F(pair, "EscrowAddress")) &&
				f.sameDeep(ts[0].Coins, coinsOf(F(o, "OfferCoin")))
			r.ob("ESCROW-TRANSFER", om.name, ev.Pos, ok, "placement must move exactly the order's offer coin from the orderer to the pair's escrow account; transfers: %s", describe(ts))
			r.ob("NO-SUPPLY", om.name, ev.Pos, len(supplyOps(u.Events, "MintCoins"))+len(supplyOps(u.Events, "BurnCoins")) == 0, "placement mints or burns coins")
			chk := func(name string, ok bool, got *Term) {
				r.ob("RECORD-"+name, om.name, ev.Pos, ok, "stored order field %s is %v", name, got)
			}
			chk("RemainingOfferCoin", f.sameDeep(F(o, "RemainingOfferCoin"), F(o, "OfferCoin")), F(o, "RemainingOfferCoin"))
			chk("Amount", f.same(F(o, "Amount"), F(msg, "Amount")), F(o, "Amount"))
			chk("OpenAmount", f.same(F(o, "OpenAmount"), F(msg, "Amount")), F(o, "OpenAmount"))
			chk("ReceivedCoin.Amount", f.same(F(o, "ReceivedCoin", "Amount"), ci(0)), F(o, "ReceivedCoin", "Amount"))
			chk("ReceivedCoin.Denom", f.same(F(o, "ReceivedCoin", "Denom"), F(msg, "DemandCoinDenom")), F(o, "ReceivedCoin", "Denom"))
			chk("OfferCoin.Denom", f.same(F(o, "OfferCoin", "Denom"), F(msg, "OfferCoin", "Denom")), F(o, "OfferCoin", "Denom"))
			chk("Orderer", f.same(F(o, "Orderer"), F(msg, "Orderer")), F(o, "Orderer"))
			chk("Direction", f.same(F(o, "Direction"), F(msg, "Direction")), F(o, "Direction"))
			chk("PairId", f.same(F(o, "PairId"), F(msg, "PairId")), F(o, "PairId"))
			chk("Type", f.same(F(o, "Type"), constInt(om.num)), F(o, "Type"))
			// the amount escrowed
			amt, price := F(o, "Amount"), F(o, "Price")
			buy := callT(mathDec+".TruncateInt", callT(mathDec+".Ceil", callT(mathDec+".MulInt", price, amt)))
			got := F(o, "OfferCoin", "Amount")
			switch {
			case f.has(eqL(F(msg, "Direction"), ci(1))):
				chk("OfferCoin.Amount(buy)", f.same(got, buy), got)
			case f.has(eqL(F(msg, "Direction"), ci(2))):
				chk("OfferCoin.Amount(sell)", f.same(got, amt), got)
			default:
				chk("OfferCoin.Amount(?)", false, got)
			}
			r.ob("NOT-MORE-THAN-OFFERED", om.name, ev.Pos, f.has(geL(F(msg, "OfferCoin", "Amount"), got, false)), "nothing on this path ensures the escrowed amount %v does not exceed the offered amount", got)
		}
	}
	// nobody else creates orders
	for _, e := range w.Entries {
		if e.Name == "LimitOrder" || e.Name == "MarketOrder" || e.Name == "MMOrder" || e.Kind == "genesis" {
			continue
		}
		for _, u := range w.Units(e) {
			for _, c := range orderCreations(u.Events) {
				r.ob("WHO-CREATES", u.where(), c.Ev.Pos, false, "order created outside order placement")
			}
		}
		r.ob("WHO-CREATES", e.Name, e.Fn.Pos(), true, "")
	}
	r.floor("ESCROW-TRANSFER", 1)
}

// P02: only orders that satisfy the pair's rules are accepted.
func ruleP02(w *World, r *R) {
	tp := param("TickPrecision")
	ratio := param("MaxPriceLimitRatio")
	down := func(p *Term) *Term { return callT(pAmm+".PriceToDownTick", p, tp) }
	up := func(p *Term) *Term { return callT(pAmm+".PriceToUpTick", p, tp) }
	minAmt := w.globalT(pAmm, "MinCoinAmount")
	for _, om := range orderMsgs {
		e := w.ByName[om.name]
		msg := e.Msg
		pair := w.stored("Pair", F(msg, "PairId"))
		lastPtr := F(pair, "LastPrice")
		last := mk("deref", "", nil, lastPtr)
		hiLim := down(decMul(last, linAdd(constInt(1), ratio, 1, nil)))
		loLim := up(decMul(last, linAdd(constInt(1), ratio, -1, nil)))
		for _, u := range w.Units(e) {
			if u.Out == nil {
				continue
			}
			f := u.Facts
			p := u.Out.Pos
			need := func(rule string, l Lit) {
				r.ob(rule, om.name, p, f.has(l), "an order is accepted on a path where %v is not established", l)
			}
			need("PAIR-EXISTS", neL(w.kv(w.key("Pair", F(msg, "PairId"))), nilTerm))
			need("LIFESPAN", geL(param("MaxOrderLifespan"), F(msg, "OrderLifespan"), true))
			spend := callT(sdkCoins+".AmountOf", mk("bankq", "SpendableCoins@", nil, addrOf(F(msg, "Orderer"))), F(msg, "OfferCoin", "Denom"))
			need("SPENDABLE", geL(spend, F(msg, "OfferCoin", "Amount"), false))
			var base *Term
			if om.typ == "market" {
				need("MARKET-LAST-PRICE", neL(lastPtr, nilTerm))
			} else {
				price := F(msg, "Price")
				switch {
				case f.has(eqL(lastPtr, nilTerm)):
					need("PRICE-HIGH", geL(callT(pAmm+".HighestTick", tp), price, false))
					need("PRICE-LOW", geL(price, callT(pAmm+".LowestTick", tp), false))
				case f.has(neL(lastPtr, nilTerm)):
					need("PRICE-HIGH", geL(hiLim, price, false))
					need("PRICE-LOW", geL(price, loLim, false))
				default:
					r.ob("PRICE-HIGH", om.name, p, false, "accepted without knowing whether the pair has a last price")
				}
				base = price
			}
			cs := orderCreations(u.Events)
			if len(cs) != 1 {
				r.ob("ONE-ORDER", om.name, p, false, "%d orders created", len(cs))
				continue
			}
			o := cs[0].Val
			var want *Term
			switch {
			case f.has(eqL(F(msg, "Direction"), ci(1))):
				need("DENOM-OFFER", eqL(F(msg, "OfferCoin", "Denom"), F(pair, "QuoteCoinDenom")))
				need("DENOM-DEMAND", eqL(F(msg, "DemandCoinDenom"), F(pair, "BaseCoinDenom")))
				want = hiLim
				if base != nil {
					want = down(base)
				}
			case f.has(eqL(F(msg, "Direction"), ci(2))):
				need("DENOM-OFFER", eqL(F(msg, "OfferCoin", "Denom"), F(pair, "BaseCoinDenom")))
				need("DENOM-DEMAND", eqL(F(msg, "DemandCoinDenom"), F(pair, "QuoteCoinDenom")))
				want = loLim
				if base != nil {
					want = up(base)
				}
			}
			got := F(o, "Price")
			r.ob("TICK-PRICE", om.name, p, want != nil && f.same(got, want), "order price is %v, want %v", got, want)
			need("MIN-AMOUNT", geL(F(o, "Amount"), minAmt, false))
			need("MIN-VALUE", geL(callT(mathDec+".MulInt", got, F(o, "Amount")), mkToDec(minAmt, nil), false))
			exp := F(o, "ExpireAt")
			r.ob("EXPIRY", om.name, p, isAfterLifespan(exp, F(msg, "OrderLifespan")), "order expires at %v, want block time plus the requested lifespan", exp)
			r.ob("BATCH", om.name, p, f.same(F(o, "BatchId"), F(pair, "CurrentBatchId")), "order enters batch %v, want the pair's current batch", F(o, "BatchId"))
		}
	}
	r.floor("TICK-PRICE", 1)
	r.floor("PRICE-HIGH", 1)
}

func isBlockTime(t *Term) bool {
	return t != nil && t.Op == "call" && t.Name == "("+pSDK+".Context).BlockTime"
}

func isAfterLifespan(t, life *Term) bool {
	return t != nil && t.Op == "call" && t.Name == "(time.Time).Add" && isBlockTime(t.Args[0]) && t.Args[1] == life
}

// terminalStatusFacts reports what the facts say about a status term:
// 1 = certainly non-terminal, 0 = unknown.
func nonTerminal(f *Facts, st *Term) bool {
	n := 0
	for _, s := range []int{stCompleted, stCanceled, stExpired} {
		if f.contra(eqL(st, ci(s))) {
			n++
		}
	}
	return n == 3
}

// orderEnds lists writes that set an order to a terminal status.
func orderEnds(evs []*Event) []recWrite {
	var r []recWrite
	for _, x := range writes(evs, "Order") {
		st := F(x.Val, "Status")
		if v, ok := st.intVal(); ok && v.Int64() >= stCompleted {
			r = append(r, x)
		}
	}
	return r
}

// P03: whenever an order ends its whole remaining offer coin is returned, once.
func ruleP03(w *World, r *R) {
	for _, u := range w.AllUnits("msg", "begin", "end") {
		for _, x := range orderEnds(u.Events) {
			at := u.where()
			if !r.ob("END-IS-UPDATE", at, x.Ev.Pos, x.Base != nil, "a terminal order is written that is not derived from a stored order: %v", x.Val) {
				continue
			}
			b := x.Base
			f := x.Ev.Facts
			r.ob("END-ONCE", at, x.Ev.Pos, nonTerminal(f, F(b, "Status")) || nonTerminal(u.Facts, F(b, "Status")), "an order can be ended here although it already ended (old status not excluded): its remaining coin would be refunded twice")
			rem := F(x.Val, "RemainingOfferCoin")
			pairEsc := w.escrowOf(u, F(b, "PairId"))
			n, bad := 0, ""
			for _, t := range transfers(u.Events) {
				if t.Coins == nil || !u.Facts.sameDeep(t.Coins, coinsOf(rem)) || t.To != addrOf(F(b, "Orderer")) {
					if t.Coins != nil && t.Coins.containsTerm(F(b, "RemainingOfferCoin")) {
						bad = fmt.Sprintf("%v -> %v: %v", t.From, t.To, t.Coins)
					}
					continue
				}
				if !pairEsc(t.From) {
					bad = fmt.Sprintf("refund paid from %v", t.From)
					continue
				}
				n++
			}
			zero := u.Facts.has(geL(ci(0), F(rem, "Amount"), false)) || u.Facts.has(eqL(F(rem, "Amount"), ci(0)))
			r.ob("REFUND", at, x.Ev.Pos, bad == "" && (n == 1 || n == 0 && zero), "ending an order must pay its whole remaining offer coin from the pair escrow to the orderer exactly once unless nothing remains; matching refunds: %d %s (all: %s)", n, bad, describe(transfers(u.Events)))
		}
	}
	r.floor("REFUND", 1)
}

// escrowOf recognises the escrow address of the pair with the given id.
func (w *World) escrowOf(u *Unit, pairID *Term) func(*Term) bool {
	return func(a *Term) bool {
		if a.Op != "addr" {
			return false
		}
		s := a.Args[0]
		if s.Op != "field" || s.Name != "EscrowAddress" {
			return false
		}
		p := s.Args[0]
		if p.Typ == nil || typeName(p.Typ) != pTypes+".Pair" {
			return false
		}
		id := F(p, "Id")
		return id == pairID || u.Facts.same(id, pairID)
	}
}

// P04: cancellation by the owner only, and only once the order's batch is over.
func ruleP04(w *World, r *R) {
	e := w.ByName["CancelOrder"]
	msg := e.Msg
	ord := w.stored("Order", F(msg, "PairId"), F(msg, "OrderId"))
	cur := F(w.stored("Pair", F(msg, "PairId")), "CurrentBatchId")
	for _, u := range w.Units(e) {
		if u.Out == nil {
			r.ob("CANCEL-LOOP", u.where(), u.Loop.Pos, len(writes(u.Events, "Order")) == 0, "orders are written in a loop of a single cancellation")
			continue
		}
		ws := writes(u.Events, "Order")
		f := u.Facts
		done := f.has(eqL(F(ord, "Status"), ci(stCompleted))) || f.has(eqL(F(ord, "Status"), ci(stExpired)))
		if !r.ob("CANCEL-EFFECT", "CancelOrder", u.Out.Pos, len(ws) == 1 || len(ws) == 0 && done, "a successful cancellation writes %d orders, want exactly the cancelled one", len(ws)) || len(ws) == 0 {
			continue
		}
		x := ws[0]
		r.ob("CANCEL-TARGET", "CancelOrder", x.Ev.Pos, x.Base == ord, "the order written (%v) is not the one named by the message", x.Base)
		r.ob("CANCEL-STATUS", "CancelOrder", x.Ev.Pos, F(x.Val, "Status") == ci(stCanceled), "cancellation stores status %v", F(x.Val, "Status"))
		r.ob("CANCEL-OWNER", "CancelOrder", x.Ev.Pos, f.has(eqL(F(msg, "Orderer"), F(ord, "Orderer"))), "cancellation succeeds without checking that the sender placed the order")
		r.ob("CANCEL-BATCH", "CancelOrder", x.Ev.Pos, f.has(neL(F(ord, "BatchId"), cur)) || f.has(ltL(F(ord, "BatchId"), cur, true)) || f.has(eqL(w.kv(w.key("Pair", F(msg, "PairId"))), nilTerm)), "cancellation succeeds without checking that the order's batch is over; facts: %v", f.list())
		r.ob("CANCEL-EXISTS", "CancelOrder", x.Ev.Pos, f.has(neL(ord.Args[0], nilTerm)), "cancellation of a missing order succeeds")
	}
	// cancel all
	e = w.ByName["CancelAllOrders"]
	msg = e.Msg
	idx := mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx["OrderIndex"])), mk("lenpfx", "", nil, addrOf(F(msg, "Orderer"))))
	// selection: m holds exactly the pair ids of the message
	selection := func(m *Term) bool {
		if !w.mapHolds(e, m, func(ev *Event) bool { return ev.Args[1].Op == "elem" && ev.Args[1].Args[0] == F(msg, "PairIds") }) {
			return false
		}
		for _, u := range w.Units(e) {
			if u.Loop == nil || len(u.Loop.Bodies) == 0 {
				continue
			}
			has := false
			for _, ev := range u.Events {
				has = has || ev.Kind == "mapset" && ev.Args[0] == m
			}
			if has {
				for _, b := range u.Loop.Bodies {
					in := false
					for _, ev := range b.Events {
						in = in || ev.Kind == "mapset" && ev.Args[0] == m
					}
					if !in {
						return false
					}
				}
			}
		}
		return true
	}
	for _, u := range w.Units(e) {
		for _, x := range writes(u.Events, "Order") {
			f := u.Facts
			if !r.ob("CANCELALL-UPDATE", u.where(), x.Ev.Pos, x.Base != nil, "cancel-all writes a new order") {
				continue
			}
			b := x.Base
			own := f.has(eqL(F(msg, "Orderer"), F(b, "Orderer"))) || b.contains(func(t *Term) bool {
				return t.Op == "iterkey" && t.Args[0].Op == "iter" && t.Args[0].Args[0] == idx
			})
			r.ob("CANCELALL-OWNER", u.where(), x.Ev.Pos, own, "cancel-all ends an order that is neither found through the sender's own order index nor checked to belong to the sender (%v)", b)
			r.ob("CANCELALL-STATUS", u.where(), x.Ev.Pos, F(x.Val, "Status") == ci(stCanceled), "cancel-all stores status %v", F(x.Val, "Status"))
			bok := false
			for a, v := range f.m {
				if (a.Op == "lt" && v && a.Args[0] == F(b, "BatchId") && w.isBatchOf(e, f, a.Args[1], F(b, "PairId"))) ||
					(a.Op == "eq" && !v && (a.Args[0] == F(b, "BatchId") && w.isBatchOf(e, f, a.Args[1], F(b, "PairId")) || a.Args[1] == F(b, "BatchId") && w.isBatchOf(e, f, a.Args[0], F(b, "PairId")))) {
					bok = true
				}
			}
			r.ob("CANCELALL-BATCH", u.where(), x.Ev.Pos, bok, "cancel-all ends an order without checking that its batch is over")
			// restricted to the requested pairs
			sel := false
			if f.has(eqL(mkLen(F(msg, "PairIds")), ci(0))) {
				sel = true
			}
			for a, v := range f.m {
				if (a.Op == "mapok" || a.Op == "maplookup") && v && f.same(a.Args[1], F(b, "PairId")) && selection(a.Args[0]) {
					sel = true
				}
				if a.Op == "eq" && v && a.Args[0] == ci(0) && a.Args[1].Op == "len" && selection(a.Args[1].Args[0]) || a.Op == "eq" && v && a.Args[1] == ci(0) && a.Args[0].Op == "len" && selection(a.Args[0].Args[0]) {
					sel = true // empty selection set
				}
			}
			r.ob("CANCELALL-PAIRS", u.where(), x.Ev.Pos, sel, "cancel-all ends an order whose pair was not selected by the request")
		}
	}
	// and all of those are ended
	for _, u := range w.Units(e) {
		if u.Loop == nil {
			for a, v := range u.Facts.m {
				if u.Out != nil && u.Out.Kind == "ret" && len(u.Out.Vals) > 0 && u.Out.Vals[len(u.Out.Vals)-1] == nilTerm && a.Op == "itervalid" && v && a.Args[0].Op == "iter" && a.Args[0].Args[0] == idx {
					r.ob("CANCELALL-ALL", u.where(), u.Out.Pos, false, "cancel-all stops before the last of the sender's orders")
				}
			}
			continue
		}
		var base *Term
		for _, b := range u.Loop.Bodies {
			for _, x := range writes(b.Events, "Order") {
				base = x.Base
			}
		}
		if base == nil || len(writes(u.Events, "Order")) > 0 || base.Op == "dec" && u.Facts.has(eqL(base.Args[0], nilTerm)) {
			continue
		}
		f := u.Facts
		b := base
		status := F(b, "Status")
		live := !f.has(neL(status, ci(1))) || !f.has(neL(status, ci(2))) || !f.has(neL(status, ci(3)))
		// the pair looked up may be missing from a map
		isBatch := func(t *Term) bool {
			if t.Op == "field" && t.Args[0].Op == "maplookup" {
				ok := false
				for a, v := range f.m {
					ok = ok || a.Op == "mapok" && v && a.Args[0] == t.Args[0].Args[0] && a.Args[1] == t.Args[0].Args[1]
				}
				if !ok {
					return false
				}
			}
			return w.isBatchOf(e, f, t, F(b, "PairId"))
		}
		why := !live || f.has(eqL(status, ci(stCanceled))) || f.has(eqL(status, ci(stCompleted))) || f.has(eqL(status, ci(stExpired)))
		out, some := false, f.has(neL(mkLen(F(msg, "PairIds")), ci(0)))
		for a, v := range f.m {
			switch {
			case a.Op == "lt" && !v && a.Args[0] == F(b, "BatchId") && isBatch(a.Args[1]):
				why = true
			case a.Op == "eq" && v && (a.Args[0] == F(b, "BatchId") && isBatch(a.Args[1]) || a.Args[1] == F(b, "BatchId") && isBatch(a.Args[0])):
				why = true
			case (a.Op == "mapok" || a.Op == "maplookup") && !v && f.same(a.Args[1], F(b, "PairId")) && selection(a.Args[0]):
				out = true
			case a.Op == "eq" && !v && a.Args[0] == ci(0) && a.Args[1].Op == "len" && selection(a.Args[1].Args[0]), a.Op == "eq" && !v && a.Args[1] == ci(0) && a.Args[0].Op == "len" && selection(a.Args[0].Args[0]):
				some = true
			}
		}
		r.ob("CANCELALL-ALL", u.where(), u.Loop.Pos, why || out && some, "cancel-all passes over an order of an earlier batch in a selected pair")
	}
	r.floor("CANCELALL-ALL", 3)
	for _, e := range w.Entries {
		if e.Name == "CancelOrder" || e.Name == "CancelAllOrders" || e.Kind == "genesis" {
			continue
		}
		for _, u := range w.Units(e) {
			for _, x := range writes(u.Events, "Order") {
				r.ob("WHO-CANCELS", u.where(), x.Ev.Pos, F(x.Val, "Status") != ci(stCanceled), "an order is cancelled by an operation other than a cancellation request")
			}
		}
	}
	r.floor("CANCEL-OWNER", 1)
	r.floor("CANCELALL-OWNER", 1)
	r.floor("WHO-CANCELS", 1)
}

// isBatchOf: t is the current batch id of the pair with id pid.
func (w *World) isBatchOf(e *Entry, f *Facts, t, pid *Term) bool {
	if t.Op != "field" || t.Name != "CurrentBatchId" {
		return false
	}
	p := t.Args[0]
	if p.Typ == nil || typeName(p.Typ) != pTypes+".Pair" {
		return false
	}
	if p.Op == "maplookup" { // cache of pairs keyed by pair id
		return f.same(p.Args[1], pid) && w.mapHolds(e, p.Args[0], func(ev *Event) bool {
			return ev.Facts.same(F(ev.Args[2], "Id"), ev.Args[1]) || ev.Args[2].Op == "zero" && dangling(ev.Facts) || w.isBatchOf(e, ev.Facts, F(ev.Args[2], "CurrentBatchId"), ev.Args[1])
		})
	}
	return f.same(F(p, "Id"), pid)
}

// mapHolds: every insertion into the map m by e satisfies ok, and there is one.
func (w *World) mapHolds(e *Entry, m *Term, ok func(*Event) bool) bool {
	n := 0
	for _, u := range w.Units(e) {
		for _, ev := range u.Events {
			if ev.Kind == "mapset" && ev.Args[0] == m {
				n++
				if !ok(ev) {
					return false
				}
			}
		}
	}
	return n > 0
}
