package main

import (
	"strings"
)

// P38: the events a transaction or block emits tell what it did.

type emitted struct {
	ev    *Event
	name  string
	attrs map[string]*Term
	dup   bool
}

// emittedIn lists the typed events of a path; unknown reports one that cannot
// be read.
func emittedIn(evs []*Event) (es []emitted, unknown *Event) {
	for _, ev := range evs {
		if ev.Kind != "emit" {
			continue
		}
		l := ev.Args[0]
		if l.Op != "list" {
			unknown = ev
			continue
		}
		for _, e := range l.Args {
			var more []*Term
			for e.Op == "call" && e.Name == "("+pSDK+".Event).AppendAttributes" && len(e.Args) == 2 && e.Args[1].Op == "list" {
				more = append(more, e.Args[1].Args...)
				e = e.Args[0]
			}
			if e.Op != "call" || e.Name != pSDK+".NewEvent" || len(e.Args) != 2 || e.Args[0].Op != "str" || e.Args[1].Op != "list" {
				unknown = ev
				continue
			}
			x := emitted{ev: ev, name: strVal(e.Args[0]), attrs: map[string]*Term{}}
			for _, a := range append(more, e.Args[1].Args...) {
				if a.Op != "call" || a.Name != pSDK+".NewAttribute" || len(a.Args) != 2 || a.Args[0].Op != "str" {
					unknown = ev
					continue
				}
				k := strVal(a.Args[0])
				x.dup = x.dup || x.attrs[k] != nil
				x.attrs[k] = a.Args[1]
			}
			es = append(es, x)
		}
	}
	return es, unknown
}

// shows: the text is the value written out.
func shows(f *Facts, text, v *Term) bool {
	if text == nil || v == nil {
		return false
	}
	if f.sameDeep(text, v) {
		return true
	}
	if text.Op == "addrstr" {
		return f.sameDeep(text.Args[0], v) || f.sameDeep(text.Args[0], addrOf(v))
	}
	if text.Op != "call" {
		return false
	}
	same := func(t *Term) bool {
		for t.Op == "iface" || t.Op == "conv" {
			t = t.Args[0]
		}
		return f.sameDeep(t, v) || f.same(t, v) || sameCoin(f, t, v)
	}
	n := text.Name
	switch {
	case strings.HasSuffix(n, ".String") && len(text.Args) == 1:
		return same(text.Args[0])
	case n == "strconv.FormatUint" || n == "strconv.FormatInt":
		return text.Args[1] == ci(10) && same(text.Args[0])
	case n == "strconv.Itoa":
		return same(text.Args[0])
	case n == "fmt.Sprint" || n == "fmt.Sprintf" && (text.Args[0].Name == "%d" || text.Args[0].Name == "%s" || text.Args[0].Name == "%v"):
		l := text.Args[len(text.Args)-1]
		return l.Op == "list" && len(l.Args) == 1 && same(l.Args[0])
	}
	return false
}

// sameCoin: coins of equal denomination and amount.
func sameCoin(f *Facts, a, b *Term) bool {
	if a.Typ == nil || b.Typ == nil || structOf(a.Typ) == nil || structOf(b.Typ) == nil {
		return false
	}
	ad, bd, aa, ba := F(a, "Denom"), F(b, "Denom"), F(a, "Amount"), F(b, "Amount")
	return ad != nil && bd != nil && aa != nil && ba != nil && f.sameDeep(ad, bd) && linSame(f, aa, ba)
}

type attrWant struct {
	key string
	ok  func(f *Facts, text *Term) bool
}

func isShown(key string, vs ...*Term) attrWant {
	return attrWant{key, func(f *Facts, text *Term) bool {
		for _, v := range vs {
			if shows(f, text, v) {
				return true
			}
		}
		return false
	}}
}

// told: the path emits exactly one event of the type with these attributes.
func (r *R) told(u *Unit, es []emitted, used map[int]bool, name string, pos *Event, pick func(e emitted) bool, want []attrWant) {
	n := 0
	for i, e := range es {
		if e.name != name || used[i] || pick != nil && !pick(e) {
			continue
		}
		n++
		used[i] = true
		if n > 1 {
			continue
		}
		r.ob("READABLE", u.where()+" "+name, e.ev.Pos, !e.dup, "an attribute is given twice")
		for _, wnt := range want {
			v := e.attrs[wnt.key]
			r.ob("TELLS-"+wnt.key, u.where()+" "+name, e.ev.Pos, v != nil && wnt.ok(u.Facts, v), "the event's %s is %v", wnt.key, v)
		}
	}
	p := u.pos()
	if pos != nil {
		p = pos.Pos
	}
	r.ob("TELLS", u.where()+" "+name, p, n == 1, "%d %s events are emitted", n, name)
}

func ruleP38(w *World, r *R) {
	known := map[string]bool{}
	for _, n := range []string{"create_pair", "create_pool", "create_ranged_pool", "deposit", "withdraw", "limit_order", "market_order", "mm_order",
		"cancel_order", "cancel_all_orders", "deposit_result", "withdrawal_result", "order_result", "user_order_matched", "pool_order_matched"} {
		known[n] = true
	}
	esc := escrowGlobal(w)
	for _, e := range w.Entries {
		switch e.Kind {
		case "msg", "begin", "end":
		default:
			for _, u := range w.Units(e) {
				es, _ := emittedIn(u.Events)
				for _, x := range es {
					r.ob("ONLY-DONE", u.where()+" "+x.name, x.ev.Pos, !known[x.name], "tells of something that did not happen")
				}
			}
			continue
		}
		for _, u := range w.Units(e) {
			es, unknown := emittedIn(u.Events)
			if unknown != nil {
				r.ob("READABLE", u.where(), unknown.Pos, false, "cannot tell which event this is: %v", unknown.Args[0])
			}
			used := map[int]bool{}
			f := u.Facts
			w.tellsCreated(r, e, u, es, used)
			// ended orders
			for _, x := range writes(u.Events, "Order") {
				v := x.Val
				if x.Base == nil || !statusIn(f, F(v, "Status"), stCompleted, stCanceled, stExpired) {
					continue
				}
				id := isShown("order_id", F(v, "Id"))
				r.told(u, es, used, "order_result", x.Ev, func(e emitted) bool { return len(writes(u.Events, "Order")) == 1 || id.ok(f, e.attrs["order_id"]) }, []attrWant{
					id, isShown("pair_id", F(v, "PairId")), isShown("orderer", F(v, "Orderer")), isShown("order_direction", F(v, "Direction")),
					isShown("amount", F(v, "Amount")), isShown("open_amount", F(v, "OpenAmount")), isShown("offer_coin", F(v, "OfferCoin")),
					isShown("remaining_offer_coin", F(v, "RemainingOfferCoin")), isShown("received_coin", F(v, "ReceivedCoin")), isShown("status", F(v, "Status"))})
			}
			// ended requests
			refund := func(owner *Term) attrWant {
				return attrWant{"refunded_coins", func(f *Facts, text *Term) bool {
					for _, t := range transfers(u.Events) {
						if f.sameDeep(t.From, esc) && f.sameDeep(t.To, addrOf(owner)) {
							return shows(f, text, t.Coins)
						}
					}
					// nothing is refunded: the text is of coins known to be none
					if text.Op != "call" || len(text.Args) != 1 {
						return false
					}
					c := text.Args[0]
					return c.Op == "nil" || c.Op == "list" && len(c.Args) == 0 || c.Op == "coins" && len(c.Args) == 0 || f.has(Lit{callT(sdkCoins+".IsZero", c), true}) || f.has(Lit{callT(sdkCoins+".Empty", c), true})
				}}
			}
			for _, x := range writes(u.Events, "DepositRequest") {
				if v := x.Val; x.Base != nil && !statusIn(f, F(v, "Status"), 1) {
					r.told(u, es, used, "deposit_result", x.Ev, nil, []attrWant{isShown("request_id", F(v, "Id")), isShown("pool_id", F(v, "PoolId")), isShown("depositor", F(v, "Depositor")),
						isShown("deposit_coins", F(v, "DepositCoins")), isShown("accepted_coins", F(v, "AcceptedCoins")), isShown("minted_pool_coin", F(v, "MintedPoolCoin")),
						isShown("status", F(v, "Status")), refund(F(v, "Depositor"))})
				}
			}
			for _, x := range writes(u.Events, "WithdrawRequest") {
				if v := x.Val; x.Base != nil && !statusIn(f, F(v, "Status"), 1) {
					r.told(u, es, used, "withdrawal_result", x.Ev, nil, []attrWant{isShown("request_id", F(v, "Id")), isShown("pool_id", F(v, "PoolId")), isShown("withdrawer", F(v, "Withdrawer")),
						isShown("pool_coin", F(v, "PoolCoin")), isShown("withdrawn_coins", F(v, "WithdrawnCoins")), isShown("status", F(v, "Status")), refund(F(v, "Withdrawer"))})
				}
			}
			w.tellsMatches(r, u, es, used)
			if e.Name == "EndBlock" { // totals per pool are not followed here
				for i, x := range es {
					if x.name == "pool_order_matched" {
						used[i] = true
						pid := x.attrs["pair_id"]
						r.ob("TELLS-pair_id", u.where()+" "+x.name, x.ev.Pos, pid != nil && w.showsPair(f, pid), "the event's pair_id is %v", pid)
					}
				}
			}
			// ended orders are cleared before messages run (P06), and none is in a
			// book (P06): such a path does not happen
			dead := []int{stCompleted, stExpired}
			if e.Kind != "msg" {
				dead = append(dead, stCanceled)
			}
			for i, x := range es {
				if known[x.name] && !(len(writes(u.Events, "Order")) == 0 && deadOrder(f, dead...)) {
					r.ob("ONLY-DONE", u.where()+" "+x.name, x.ev.Pos, used[i], "tells of something that did not happen on this path")
				}
			}
		}
	}
	for _, n := range []string{"TELLS", "ONLY-DONE", "TELLS-orderer", "TELLS-status", "TELLS-matched_amount", "TELLS-refunded_coins", "TELLS-canceled_order_ids"} {
		r.floor(n, 1)
	}
}

// tellsCreated: what a message created or cancelled.
func (w *World) tellsCreated(r *R, e *Entry, u *Unit, es []emitted, used map[int]bool) {
	msg := e.Msg
	if msg == nil || u.Out == nil {
		return
	}
	f := u.Facts
	fresh := func(rec string) *recWrite {
		for _, x := range writes(u.Events, rec) {
			if x.Base == nil {
				return &x
			}
		}
		return nil
	}
	switch e.Name {
	case "CreatePair":
		if x := fresh("Pair"); x != nil {
			v := x.Val
			r.told(u, es, used, "create_pair", x.Ev, nil, []attrWant{isShown("creator", F(msg, "Creator")), isShown("base_coin_denom", F(v, "BaseCoinDenom")),
				isShown("quote_coin_denom", F(v, "QuoteCoinDenom")), isShown("pair_id", F(v, "Id")), isShown("escrow_address", F(v, "EscrowAddress"))})
		}
	case "CreatePool", "CreateRangedPool":
		name := "create_pool"
		if e.Name == "CreateRangedPool" {
			name = "create_ranged_pool"
		}
		if x := fresh("Pool"); x != nil {
			v := x.Val
			minted := attrWant{"minted_pool_coin", func(f *Facts, text *Term) bool {
				for _, m := range supplyOps(u.Events, "MintCoins") {
					c := m.Args[1]
					if shows(f, text, c) || c.Op == "coins" && len(c.Args) == 1 && shows(f, text, c.Args[0]) {
						return true
					}
				}
				return false
			}}
			offered := []*Term{F(msg, "DepositCoins")}
			for _, t := range transfers(u.Events) { // or those taken
				if f.sameDeep(t.To, addrOf(F(v, "ReserveAddress"))) {
					offered = append(offered, t.Coins)
				}
			}
			r.told(u, es, used, name, x.Ev, nil, []attrWant{isShown("creator", F(msg, "Creator")), isShown("pair_id", F(v, "PairId")), isShown("deposit_coins", offered...),
				isShown("pool_id", F(v, "Id")), isShown("reserve_address", F(v, "ReserveAddress")), minted})
		}
	case "Deposit":
		if x := fresh("DepositRequest"); x != nil {
			v := x.Val
			r.told(u, es, used, "deposit", x.Ev, nil, []attrWant{isShown("depositor", F(v, "Depositor")), isShown("pool_id", F(v, "PoolId")), isShown("deposit_coins", F(v, "DepositCoins")), isShown("request_id", F(v, "Id"))})
		}
	case "Withdraw":
		if x := fresh("WithdrawRequest"); x != nil {
			v := x.Val
			r.told(u, es, used, "withdraw", x.Ev, nil, []attrWant{isShown("withdrawer", F(v, "Withdrawer")), isShown("pool_id", F(v, "PoolId")), isShown("pool_coin", F(v, "PoolCoin")), isShown("request_id", F(v, "Id"))})
		}
	case "LimitOrder", "MarketOrder", "MMOrder":
		name := map[string]string{"LimitOrder": "limit_order", "MarketOrder": "market_order", "MMOrder": "mm_order"}[e.Name]
		if x := fresh("Order"); x != nil {
			v := x.Val
			demand := F(v, "ReceivedCoin", "Denom")
			left := attrWant{"refunded_coins", func(f *Facts, text *Term) bool { // what was offered and not taken
				if text.Op != "call" || len(text.Args) != 1 {
					return false
				}
				c := text.Args[0]
				d, a := F(c, "Denom"), F(c, "Amount")
				return d != nil && a != nil && f.sameDeep(d, F(v, "OfferCoin", "Denom")) && linSame(f, a, linAdd(F(msg, "OfferCoin", "Amount"), F(v, "OfferCoin", "Amount"), -1, nil))
			}}
			expire := attrWant{"expire_at", func(f *Facts, text *Term) bool {
				return text.Op == "call" && strings.HasPrefix(text.Name, "(time.Time).") && f.sameDeep(text.Args[0], F(v, "ExpireAt"))
			}}
			r.told(u, es, used, name, x.Ev, nil, []attrWant{isShown("orderer", F(v, "Orderer")), isShown("pair_id", F(v, "PairId")), isShown("order_direction", F(v, "Direction")),
				isShown("offer_coin", F(v, "OfferCoin")), isShown("demand_coin_denom", demand), isShown("price", F(v, "Price")), isShown("amount", F(v, "Amount")), isShown("order_id", F(v, "Id")),
				isShown("batch_id", F(v, "BatchId")), expire, left})
		}
	case "CancelOrder":
		for _, x := range writes(u.Events, "Order") {
			v := x.Val
			r.told(u, es, used, "cancel_order", x.Ev, nil, []attrWant{isShown("orderer", F(v, "Orderer")), isShown("pair_id", F(v, "PairId")), isShown("order_id", F(v, "Id"))})
		}
	case "CancelAllOrders":
		joined := func(text *Term) *Term {
			if text.Op == "call" && text.Name == "strings.Join" && text.Args[1].Op == "str" && strVal(text.Args[1]) == "," {
				return text.Args[0]
			}
			return nil
		}
		pairs := attrWant{"pair_ids", func(f *Facts, text *Term) bool {
			l := joined(text)
			return l != nil && (f.has(eqL(mkLen(F(msg, "PairIds")), ci(0))) && emptyList(l) || w.collects(u, l, F(msg, "PairIds"), func(b *Unit, x *Term) bool {
				el := elemUnder(b, F(msg, "PairIds"))
				return el != nil && shows(b.Facts, x, el)
			}))
		}}
		ids := attrWant{"canceled_order_ids", func(f *Facts, text *Term) bool {
			l := joined(text)
			return l != nil && w.collects(u, l, nil, nil)
		}}
		r.told(u, es, used, "cancel_all_orders", nil, nil, []attrWant{isShown("orderer", F(msg, "Orderer")), pairs, ids})
	}
}

// collects: the list starts empty and each round of the loop that builds it
// appends the wanted text: of the element (item), or of the order ended in that
// round and none in a round that ends none.
func (w *World) collects(u *Unit, l, over *Term, item func(b *Unit, x *Term) bool) bool {
	mi := u.Entry.In.Mus[l]
	if mi == nil || !emptyList(mi.Init) {
		return false
	}
	var ev *Event
	for _, x := range u.Events {
		if x.Kind != "loop" {
			continue
		}
		if x.Loop == mi.Loop {
			ev = x
		} else if j := x.Mus[l]; j != nil && x.Joined != "" {
			ev, mi = x, j // the loop was joined to an earlier one
		}
	}
	if ev == nil || len(mi.Backs) == 0 || over != nil && !loopExhausted(u.Facts, ev, over) {
		return false
	}
	for i, back := range mi.Backs {
		if dangling(back.Facts) || i >= len(ev.Bodies) {
			continue
		}
		b := &Unit{Entry: u.Entry, Parent: u, Loop: ev, Events: ev.Bodies[i].Events, Facts: ev.Bodies[i].Facts}
		var added *Term
		if back.Val != l {
			if back.Val.Op != "append" || len(back.Val.Args) != 2 || back.Val.Args[0] != l {
				return false
			}
			added = back.Val.Args[1]
			if added.Op == "list" {
				if len(added.Args) != 1 {
					return false
				}
				added = added.Args[0]
			}
		}
		if item != nil {
			if added == nil || !item(b, added) {
				return false
			}
			continue
		}
		ws := writes(b.Events, "Order")
		switch {
		case len(ws) == 1:
			if added == nil || !shows(b.Facts, added, F(ws[0].Val, "Id")) {
				return false
			}
		case added != nil: // an order that has already ended is cleared before messages run
			if !deadOrder(b.Facts, stCompleted, stExpired) {
				return false
			}
		}
	}
	return true
}

// deadOrder: the path works on an order known to have ended.
func deadOrder(f *Facts, st ...int) bool {
	for a := range f.m {
		for _, t := range a.Args {
			if t.Op == "field" && t.Name == "Status" && statusIn(f, t, st...) {
				return true
			}
		}
	}
	return false
}

// tellsMatches: a matched user order is told with what the match changed in the
// stored order.
func (w *World) tellsMatches(r *R, u *Unit, es []emitted, used map[int]bool) {
	for _, x := range writes(u.Events, "Order") {
		v, b := x.Val, x.Base
		if b == nil || F(v, "OpenAmount") == F(b, "OpenAmount") {
			continue
		}
		diff := func(key string, fld []string, sign int64, amount func(t *Term) *Term) attrWant {
			return attrWant{key, func(f *Facts, text *Term) bool {
				if text.Op != "call" || len(text.Args) != 1 {
					return false
				}
				a := amount(text.Args[0])
				if a == nil {
					return false
				}
				return linSame(f, F(v, fld...), linAdd(F(b, fld...), a, sign, nil))
			}}
		}
		num := func(t *Term) *Term { return t }
		amt := func(t *Term) *Term { return F(t, "Amount") }
		who := []*Term{F(b, "Orderer")}
		for _, t := range transfers(u.Events) { // whom the received coin goes to
			if t.Queued {
				who = append(who, t.To)
			}
		}
		dir := attrWant{"order_direction", func(f *Facts, text *Term) bool {
			if shows(f, text, F(b, "Direction")) {
				return true
			}
			for a, v := range f.m { // the direction of the matched order
				if a.Op == "eq" && v {
					for i, t := range a.Args {
						if t.Op == "field" && t.Name == "Direction" && (shows(f, text, a.Args[1-i]) || shows(f, text, t)) {
							return true
						}
					}
				}
			}
			return false
		}}
		r.told(u, es, used, "user_order_matched", x.Ev, nil, []attrWant{dir, isShown("orderer", who...), isShown("order_id", F(v, "Id")), isShown("pair_id", F(v, "PairId")),
			diff("matched_amount", []string{"OpenAmount"}, -1, num), diff("paid_coin", []string{"RemainingOfferCoin", "Amount"}, -1, amt), diff("received_coin", []string{"ReceivedCoin", "Amount"}, 1, amt)})
	}
}

// showsPair: the text is the id of the pair whose batch is executed.
func (w *World) showsPair(f *Facts, text *Term) bool {
	ok := false
	text.walk(func(t *Term) bool {
		ok = ok || t.Op == "field" && t.Name == "Id" && typeName(t.Args[0].Typ) == pTypes+".Pair" && shows(f, text, t)
		return !ok
	})
	return ok
}
