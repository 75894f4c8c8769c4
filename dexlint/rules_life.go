package main

import "fmt"

var orderTerms = []string{"Type", "Id", "PairId", "MsgHeight", "Orderer", "Direction", "OfferCoin", "Price", "Amount", "BatchId", "ExpireAt"}
var orderAmounts = []string{"OpenAmount", "RemainingOfferCoin", "ReceivedCoin"}

// P05: order life cycle.
func ruleP05(w *World, r *R) {
	for _, u := range w.AllUnits("msg", "begin", "end") {
		for _, x := range writes(u.Events, "Order") {
			at, p, f := u.where(), x.Ev.Pos, x.Ev.Facts
			st := F(x.Val, "Status")
			if x.Base == nil {
				r.ob("NEW-STATUS", at, p, st == ci(stNotExecuted), "a new order is stored with status %v", st)
				continue
			}
			b := x.Base
			for _, fld := range orderTerms {
				r.ob("TERMS-FIXED", at+" "+fld, p, f.same(F(x.Val, fld), F(b, fld)), "the order's %s changes from %v to %v after placement", fld, F(b, fld), F(x.Val, fld))
			}
			old := F(b, "Status")
			amountsMoved := false
			for _, fld := range orderAmounts {
				if !f.sameDeep(F(x.Val, fld), F(b, fld)) {
					amountsMoved = true
				}
			}
			if amountsMoved {
				r.ob("AMOUNTS-ONLY-MATCH", at, p, u.Entry.Kind == "end" && (st == ci(stPartial) || st == ci(stCompleted)), "an order's amounts change outside matching")
			}
			open := F(x.Val, "OpenAmount")
			switch {
			case f.same(st, old):
			case st == ci(stNotMatched):
				r.ob("TO-NOT-MATCHED", at, p, f.has(eqL(old, ci(stNotExecuted))) && u.Entry.Kind == "end", "status becomes not-matched although the order need not be a new one")
			case st == ci(stPartial):
				r.ob("TO-PARTIAL", at, p, u.Entry.Kind == "end" && amountsMoved && (f.has(neL(open, ci(0))) || f.has(ltL(ci(0), open, false))), "status becomes partially-matched without a remaining open amount being known")
			case st == ci(stCompleted):
				r.ob("TO-COMPLETED", at, p, u.Entry.Kind == "end" && amountsMoved && f.has(eqL(open, ci(0))), "status becomes completed although the open amount is not known to be zero")
			case st == ci(stCanceled):
				r.ob("TO-CANCELED", at, p, u.Entry.Name == "CancelOrder" || u.Entry.Name == "CancelAllOrders", "an order is cancelled without a request")
			case st == ci(stExpired):
				e, _ := hasExpired(f, b)
				r.ob("TO-EXPIRED", at, p, u.Entry.Kind == "end" && (e || w.tooSmall(f, b) == 1), "an order expires before its expiration time and while it is large enough to trade")
			default:
				r.ob("TO-OTHER", at, p, false, "order status changes from %v to %v", old, st)
			}
		}
	}
	r.floor("TERMS-FIXED", 1)
	r.floor("TO-NOT-MATCHED", 1)
	r.floor("TO-PARTIAL", 1)
	r.floor("TO-COMPLETED", 1)
	r.floor("TO-CANCELED", 1)
	r.floor("TO-EXPIRED", 1)
}

// P06: what enters the book, and what leaves it.
func ruleP06(w *World, r *R) {
	end, begin := w.ByName["EndBlock"], w.ByName["BeginBlock"]
	byPair := w.pfxIs("Order", 1)
	for _, u := range w.bodiesOver(end, byPair) {
		o := w.elemOf(u, "Order")
		f := u.Facts
		st := F(o, "Status")
		at := u.where()
		p := u.Loop.Pos
		adds := opaqueCalls(u.Events, ".OrderBook).AddOrder")
		expired, live := hasExpired(f, o)
		ended := false
		for _, x := range orderEnds(u.Events) {
			if x.Base == o && F(x.Val, "Status") == ci(stExpired) {
				ended = true
			}
		}
		if !statusNone(f, st, stNotExecuted, stNotMatched, stPartial) {
			r.ob("BOOK-COMPLETE", at, p, len(adds) == 1 || expired && ended && statusNone(f, st, stNotExecuted), "a live order is left out of the book (adds %d, expired %v ended %v)", len(adds), expired, ended)
		}
		if len(adds) == 0 {
			continue
		}
		r.ob("BOOK-LIVE", at, adds[0].Pos, statusIn(f, st, stNotExecuted, stNotMatched, stPartial) && !ended && len(orderEnds(u.Events)) == 0, "an order that has ended is added to the book")
		r.ob("BOOK-NOT-EXPIRED", at, adds[0].Pos, f.has(eqL(st, ci(stNotExecuted))) || live, "an expired order from an earlier batch is added to the book")
		if !f.contra(eqL(st, ci(stNotExecuted))) {
			n := 0
			for _, x := range writes(u.Events, "Order") {
				if x.Base == o && F(x.Val, "Status") == ci(stNotMatched) {
					n++
				}
			}
			r.ob("BOOK-MARKED", at, adds[0].Pos, n == 1, "an order entering its first batch is not marked as executed")
		}
		r.bookEntry(at, f, o, adds[0])
	}
	r.ob("BOOK-ALL", "EndBlock", end.Fn.Pos(), len(w.earlyExits(end, byPair)) == 0, "the scan of a pair's orders can stop before its end")
	// nobody else adds user orders
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis") {
		for _, ev := range opaqueCalls(u.Events, ".OrderBook).AddOrder") {
			if len(w.bodyOfPrefix(u, byPair)) > 0 {
				continue
			}
			r.ob("BOOK-ONLY-SCANNED", u.where(), ev.Pos, !ev.Snap[1].contains(func(t *Term) bool { return t.Op == "struct" && hasSuffix(t.Name, ".UserOrder") }), "a user order is added to the book outside the scan of stored orders")
		}
	}
	// expiration after matching
	all := w.pfxIs("Order", 0)
	for _, u := range w.bodiesOver(end, all) {
		o := w.elemOf(u, "Order")
		f := u.Facts
		st := F(o, "Status")
		if statusNone(f, st, stNotExecuted, stNotMatched, stPartial) {
			continue
		}
		expired, live := hasExpired(f, o)
		small := w.tooSmall(f, o)
		ended := false
		for _, x := range orderEnds(u.Events) {
			if x.Base == o && F(x.Val, "Status") == ci(stExpired) {
				ended = true
			}
		}
		r.ob("EXPIRE-SWEEP", u.where(), u.Loop.Pos, ended || live && small == -1, "a live order is kept on a path where it may have expired or become too small (expired=%v live=%v small=%d)", expired, live, small)
	}
	r.ob("EXPIRE-ALL", "EndBlock", end.Fn.Pos(), len(w.earlyExits(end, all)) == 0, "the sweep over all orders can stop before its end")
	r.sweptAfter(end, byPair, all)
	// clean-up at the start of the next block
	w.cleanup(r, begin, "Order", []int{stNotExecuted, stNotMatched, stPartial}, []int{stCompleted, stCanceled, stExpired}, func(o *Term) []*Term {
		return []*Term{w.key("Order", F(o, "PairId"), F(o, "Id")), w.orderIndexKey(o)}
	})
	r.floor("ENTRY-AFFORD", 1)
	r.floor("BOOK-COMPLETE", 1)
	r.floor("BOOK-NOT-EXPIRED", 1)
	r.floor("EXPIRE-SWEEP", 1)
}

func (w *World) bodyOfPrefix(u *Unit, pred func(*Term) bool) []*Term {
	var r []*Term
	for x := u; x != nil; x = x.Parent {
		for _, it := range newIters(x) {
			if pred(it.Args[0]) {
				r = append(r, it)
			}
		}
	}
	return r
}

func (w *World) orderIndexKey(o *Term) *Term {
	return mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx["OrderIndex"])),
		mk("lenpfx", "", nil, addrOf(F(o, "Orderer"))), mk("u64be", "", nil, F(o, "PairId")), mk("u64be", "", nil, F(o, "Id")))
}

// bookEntry: the book entry carries exactly the stored order's terms.
func (r *R) bookEntry(at string, f *Facts, o *Term, ev *Event) {
	var uo *Term
	ev.Snap[1].walk(func(t *Term) bool {
		if t.Op == "struct" && hasSuffix(t.Name, ".UserOrder") {
			uo = t
		}
		return true
	})
	if !r.ob("ENTRY", at, ev.Pos, uo != nil && ev.Snap[1].Op == "list" && len(ev.Snap[1].Args) == 1, "the book entry is not a freshly built user order: %v", ev.Snap[1]) {
		return
	}
	base := F(uo, "BaseOrder")
	if base == nil || base.Op != "ref" {
		r.ob("ENTRY", at, ev.Pos, false, "book entry without amounts: %v", base)
		return
	}
	base = base.Args[0]
	chk := func(name string, got, want *Term) {
		r.ob("ENTRY-"+name, at, ev.Pos, f.same(got, want), "the book entry's %s is %v, the stored order says %v", name, got, want)
	}
	chk("OrderId", F(uo, "OrderId"), F(o, "Id"))
	chk("BatchId", F(uo, "BatchId"), F(o, "BatchId"))
	chk("Orderer", F(uo, "Orderer"), addrOf(F(o, "Orderer")))
	chk("OfferCoinDenom", F(uo, "OfferCoinDenom"), F(o, "OfferCoin", "Denom"))
	chk("DemandCoinDenom", F(uo, "DemandCoinDenom"), F(o, "ReceivedCoin", "Denom"))
	chk("Price", F(base, "Price"), F(o, "Price"))
	chk("OfferCoinAmount", F(base, "OfferCoinAmount"), F(o, "RemainingOfferCoin", "Amount"))
	chk("PaidOfferCoinAmount", F(base, "PaidOfferCoinAmount"), ci(0))
	chk("ReceivedDemandCoinAmount", F(base, "ReceivedDemandCoinAmount"), ci(0))
	dir := F(o, "Direction")
	if f.contra(eqL(dir, ci(1))) && f.contra(eqL(dir, ci(2))) {
		return // not a direction an order can have
	}
	chk("Direction", F(base, "Direction"), dir)
	chk("OpenAmount", F(base, "OpenAmount"), F(base, "Amount"))
	amt := F(base, "Amount")
	open := F(o, "OpenAmount")
	if f.has(eqL(dir, ci(1))) {
		a := affords(f, amt, open, F(o, "RemainingOfferCoin", "Amount"), F(o, "Price"))
		r.ob("ENTRY-Amount", at, ev.Pos, a != 0, "a buy order enters the book with amount %v, want the smaller of the open amount and what the remaining coin affords", amt)
		r.Count["ENTRY-AFFORD"] += b2i(a == 1)
	} else {
		chk("Amount", amt, open)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sweptAfter: the sweep over all orders comes after all pairs were matched.
func (r *R) sweptAfter(end *Entry, first, then func(*Term) bool) {
	w := r.w
	for _, u := range w.Units(end) {
		if u.Out == nil {
			continue
		}
		pairs, sweep := -1, -1
		for i, ev := range u.Events {
			if ev.Kind == "kviter" && w.prefixOf(ev.Args[0], "Pair", 0) {
				pairs = i
			}
			if ev.Kind == "kviter" && then(ev.Args[0]) {
				sweep = i
			}
		}
		if pairs < 0 && sweep < 0 {
			continue // not the end of a batch
		}
		r.ob("SWEEP-ORDER", "EndBlock", end.Fn.Pos(), pairs >= 0 && sweep > pairs, "expiration does not follow matching at the end of a batch (matching at %d, sweep at %d)", pairs, sweep)
	}
	r.floor("SWEEP-ORDER", 1)
}

// cleanup: at the start of a block finished records are deleted with their
// index entries and unfinished ones are kept.
func (w *World) cleanup(r *R, e *Entry, rec string, live, done []int, keys func(*Term) []*Term) {
	all := w.pfxIs(rec, 0)
	for _, u := range w.bodiesOver(e, all) {
		o := w.elemOf(u, rec)
		f := u.Facts
		st := F(o, "Status")
		ds := kvdels(u.Events)
		if !statusNone(f, st, done...) {
			for i, k := range keys(o) {
				n := 0
				for _, d := range ds {
					if d.Args[0] == k {
						n++
					}
				}
				r.ob("CLEANUP-DELETE", fmt.Sprintf("%s key %d", u.where(), i), u.Loop.Pos, n > 0, "a finished %s is kept (key %v)", rec, k)
			}
		}
		if !statusNone(f, st, live...) {
			r.ob("CLEANUP-KEEP", u.where(), u.Loop.Pos, len(ds) == 0, "an unfinished %s is deleted", rec)
		}
		for _, d := range ds {
			ok := false
			for _, k := range keys(o) {
				if d.Args[0] == k {
					ok = true
				}
			}
			r.ob("CLEANUP-ONLY", u.where(), d.Pos, ok, "clean-up of a %s deletes %v", rec, d.Args[0])
		}
		r.ob("CLEANUP-QUIET", u.where(), u.Loop.Pos, len(kvsets(u.Events)) == 0 && len(transfers(u.Events)) == 0, "clean-up writes records or moves coins")
	}
	r.ob("CLEANUP-ALL", e.Name, e.Fn.Pos(), len(w.earlyExits(e, all)) == 0, "the clean-up scan can stop before its end")
	r.floor("CLEANUP-DELETE", len(done)*1)
	r.floor("CLEANUP-KEEP", 1)
	// every successful BeginBlock scans
	for _, u := range w.Units(e) {
		if u.Out == nil {
			continue
		}
		n := 0
		for _, ev := range u.Events {
			if ev.Kind == "kviter" && all(ev.Args[0]) {
				n++
			}
		}
		r.ob("CLEANUP-EVERY-BLOCK", e.Name, e.Fn.Pos(), n == 1, "a block starts with %d clean-up scans of %s records", n, rec)
	}
	// and nothing else deletes
	for _, u := range w.AllUnits("msg", "end", "genesis") {
		for _, d := range kvdels(u.Events) {
			p := constPrefix(d.Args[0])
			if len(p) > 0 && p[0] == w.Pfx[rec] || len(p) == 0 {
				r.ob("DELETE-ONLY-CLEANUP", u.where(), d.Pos, false, "%v is deleted outside clean-up", d.Args[0])
			}
		}
	}
}
