package main

import (
	"bytes"
	"compress/gzip"
	"go/ast"
	"go/constant"
	"go/types"
	"io"
	"strings"
)

// P33: a message passes stateless validation exactly if it is well formed.

// msgCond is one condition on a message: holds decides that a path entails it,
// fails that a path excludes it.
type msgCond struct {
	name         string
	holds, fails func(u *Unit) bool
}

func msgLits(name string, ls ...Lit) msgCond {
	return msgCond{name, func(u *Unit) bool {
		for _, l := range ls {
			if !u.Facts.has(l) {
				return false
			}
		}
		return true
	}, func(u *Unit) bool {
		for _, l := range ls {
			if u.Facts.contra(l) {
				return true
			}
		}
		return false
	}}
}

// msgWhen: the condition is required only under the guard.
func msgWhen(guard Lit, c msgCond) msgCond {
	return msgCond{c.name, func(u *Unit) bool { return u.Facts.contra(guard) || c.holds(u) },
		func(u *Unit) bool { return u.Facts.has(guard) && c.fails(u) }}
}

func msgOneOf(name string, x *Term, vs ...int) msgCond {
	return msgCond{name, func(u *Unit) bool { return statusIn(u.Facts, x, vs...) }, func(u *Unit) bool { return statusNone(u.Facts, x, vs...) }}
}

// msgEach: the literals hold for every element of the list.
func msgEach(name string, list *Term, lits func(el *Term) []Lit) msgCond {
	return msgCond{name, func(u *Unit) bool {
		ok, _ := everyElem(u, list, func(f *Facts, el *Term) bool {
			for _, l := range lits(el) {
				if !f.has(l) {
					return false
				}
			}
			return true
		})
		return ok
	}, func(u *Unit) bool {
		bad := false
		for a := range u.Facts.m {
			a.walk(func(t *Term) bool {
				if t.Op == "elem" && t.Args[0] == list && !bad {
					for _, l := range lits(t) {
						bad = bad || u.Facts.contra(l)
					}
				}
				return !bad
			})
		}
		return bad
	}}
}

// msgDistinct: no value occurs twice in the list; a set of the values seen so
// far decides it.
func msgDistinct(name string, list *Term) msgCond {
	seen := func(f *Facts, el *Term, want bool) *Term {
		for a, v := range f.m {
			if (a.Op == "mapok" || a.Op == "maplookup") && v == want && a.Args[1] == el && strings.HasPrefix(a.Args[0].Op, "mkmap") {
				return a.Args[0]
			}
		}
		return nil
	}
	return msgCond{name, func(u *Unit) bool {
		for _, ev := range u.Events {
			if ev.Kind != "loop" || len(ev.Bodies) == 0 || !loopExhausted(u.Facts, ev, list) {
				continue
			}
			good := true
			for _, b := range ev.Bodies {
				bu := &Unit{Entry: u.Entry, Parent: u, Loop: ev, Events: b.Events, Facts: b.Facts}
				el := elemUnder(bu, list)
				if el == nil {
					good = false
					break
				}
				m := seen(b.Facts, el, false)
				marked := false
				for _, s := range b.Events {
					if s.Kind == "mapset" && m != nil && s.Args[0] == m && s.Args[1] == el {
						marked = s.Args[2] != constBool(false)
					}
				}
				good = good && marked
			}
			if good {
				return true
			}
		}
		return false
	}, func(u *Unit) bool {
		for a := range u.Facts.m {
			for _, t := range a.Args {
				if t.Op == "elem" && t.Args[0] == list && seen(u.Facts, t, true) != nil {
					return true
				}
			}
		}
		return false
	}}
}

func notL(l Lit) Lit { return Lit{l.a, !l.p} }

// msgConds: what makes a message well formed.
func (w *World) msgConds(name string, m *Term) []msgCond {
	minAmt, maxAmt := w.globalT(pAmm, "MinCoinAmount"), w.globalT(pAmm, "MaxCoinAmount")
	addr := func(f string) msgCond { return msgLits("ADDRESS", bech32OK(F(m, f))) }
	id := func(f string) msgCond { return msgLits("ID-"+f, neL(F(m, f), ci(0))) }
	denom := func(f string) msgCond { return msgLits("DENOM-"+f, errNil(pSDK+".ValidateDenom", F(m, f))) }
	coins := F(m, "DepositCoins")
	nothing := msgLits("NONE")
	validCoins, eachBelow, oneOrTwo := nothing, nothing, nothing
	notAbove := func(x, max *Term) Lit { return notL(ltL(max, x, false)) }
	if coins != nil {
		validCoins = msgLits("COINS", errNil(sdkCoins+".Validate", coins))
		eachBelow = msgEach("COIN-MAX", coins, func(el *Term) []Lit { return []Lit{notAbove(F(el, "Amount"), maxAmt)} })
		oneOrTwo = msgLits("COIN-NUMBER", neL(mkLen(coins), ci(0)), ltL(mkLen(coins), ci(3), true))
	}
	offer := F(m, "OfferCoin")
	order := func() []msgCond {
		off, amt := F(offer, "Amount"), F(m, "Amount")
		return []msgCond{addr("Orderer"), id("PairId"), msgOneOf("DIRECTION", F(m, "Direction"), 1, 2), denom("DemandCoinDenom"),
			msgLits("OFFER-COIN", errNil(sdkCoin+".Validate", offer)),
			msgLits("OFFER-MIN", geL(off, minAmt, false)), msgLits("OFFER-MAX", notAbove(off, maxAmt)),
			msgLits("AMOUNT-MIN", geL(amt, minAmt, false)), msgLits("AMOUNT-MAX", notAbove(amt, maxAmt)),
			msgLits("TWO-DENOMS", neL(F(offer, "Denom"), F(m, "DemandCoinDenom"))),
			msgLits("LIFESPAN", geL(F(m, "OrderLifespan"), ci(0), true))}
	}
	priced := func() []msgCond {
		price, amt, dir := F(m, "Price"), F(m, "Amount"), F(m, "Direction")
		buy := callT(mathDec+".TruncateInt", callT(mathDec+".Ceil", callT(mathDec+".MulInt", price, amt)))
		return append(order(), msgLits("PRICE", ltL(ci(0), price, false)),
			msgWhen(eqL(dir, ci(1)), msgLits("OFFER-ENOUGH", geL(F(offer, "Amount"), buy, false))),
			msgWhen(eqL(dir, ci(2)), msgLits("OFFER-ENOUGH", geL(F(offer, "Amount"), amt, false))))
	}
	switch name {
	case "CreatePair":
		return []msgCond{addr("Creator"), denom("BaseCoinDenom"), denom("QuoteCoinDenom"),
			msgLits("TWO-DENOMS", neL(F(m, "BaseCoinDenom"), F(m, "QuoteCoinDenom")))}
	case "CreatePool":
		return []msgCond{addr("Creator"), id("PairId"), validCoins, msgLits("COIN-NUMBER", eqL(mkLen(coins), ci(2))), eachBelow}
	case "CreateRangedPool":
		lo, hi, at := F(m, "MinPrice"), F(m, "MaxPrice"), F(m, "InitialPrice")
		return []msgCond{addr("Creator"), id("PairId"), validCoins, oneOrTwo, eachBelow,
			msgLits("INITIAL-POSITIVE", ltL(ci(0), at, false)),
			msgLits("MAX-POSITIVE", ltL(ci(0), hi, false)),
			msgLits("MIN-PRICE", geL(lo, w.globalT(pAmm, "MinPoolPrice"), false)),
			msgLits("MAX-PRICE", notAbove(hi, w.globalT(pAmm, "MaxPoolPrice"))),
			msgLits("RANGE", ltL(lo, hi, false)),
			msgLits("GAP", geL(decQuo(linAdd(hi, lo, -1, nil), lo), w.globalT(pAmm, "MinRangedPoolPriceGapRatio"), false)),
			msgLits("INITIAL-IN-RANGE", geL(at, lo, false), geL(hi, at, false))}
	case "Deposit":
		return []msgCond{addr("Depositor"), id("PoolId"), validCoins, oneOrTwo}
	case "Withdraw":
		c := F(m, "PoolCoin")
		return []msgCond{addr("Withdrawer"), id("PoolId"), msgLits("POOL-COIN", errNil(sdkCoin+".Validate", c)), msgLits("POSITIVE", ltL(ci(0), F(c, "Amount"), false))}
	case "LimitOrder", "MMOrder":
		return priced()
	case "MarketOrder":
		return order()
	case "CancelOrder":
		return []msgCond{addr("Orderer"), id("PairId"), id("OrderId")}
	case "CancelAllOrders":
		ids := F(m, "PairIds")
		return []msgCond{addr("Orderer"), msgEach("ID-PairIds", ids, func(el *Term) []Lit { return []Lit{neL(el, ci(0))} }), msgDistinct("DISTINCT", ids)}
	}
	return nil
}

var checkedMsgs = []string{"CreatePair", "CreatePool", "CreateRangedPool", "Deposit", "Withdraw", "LimitOrder", "MarketOrder", "MMOrder", "CancelOrder", "CancelAllOrders"}

func ruleP33(w *World, r *R) {
	for _, n := range checkedMsgs {
		fn := w.P.fn(pTypes, "Msg"+n, "ValidateBasic")
		if !r.ob("VALIDATED", "Msg"+n, 0, fn != nil, "the message has no ValidateBasic") {
			continue
		}
		// the message server's middleware finds it by its name and signature
		sig := fn.Signature
		r.ob("VALIDATED", "Msg"+n, fn.Pos(), sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Universe.Lookup("error").Type()), "ValidateBasic has another signature")
		x := w.run(fn)
		if !r.ob("VALIDATED", "Msg"+n, fn.Pos(), x.Err == "" && len(x.Outs) > 1, "cannot analyse it: %s", x.Err) {
			continue
		}
		conds := w.msgConds(n, x.Args[0])
		for _, o := range x.Outs {
			u := &Unit{Entry: &Entry{Name: "Msg" + n, Kind: "fn", Fn: fn, In: x.In}, Events: o.Events(), Facts: o.Facts(), Out: o}
			if o.Kind != "ret" {
				r.ob("NO-PANIC", "Msg"+n, o.Pos, false, "panics on %s", factList(o.Facts()))
				continue
			}
			if o.Success() {
				for _, c := range conds {
					r.ob("REQUIRES-"+c.name, "Msg"+n, o.Pos, c.holds(u), "a message is accepted without this condition; known: %s", factList(o.Facts()))
				}
				continue
			}
			bad := false
			for _, c := range conds {
				bad = bad || c.fails(u)
			}
			r.ob("REJECTS", "Msg"+n, o.Pos, bad, "rejects a message that is well formed: %s", factList(o.Facts()))
		}
		for _, c := range conds {
			r.floor("REQUIRES-"+c.name, 1)
		}
	}
	r.floor("REJECTS", len(checkedMsgs))
}

// P40: a message acts only for the account that signs it.

// declaredSigners reads the signer option of every message from the protobuf
// descriptor embedded in the generated code.
func (w *World) declaredSigners() (map[string]string, string) {
	res := map[string]string{}
	for _, p := range w.P.Pkgs {
		if p.PkgPath != pTypes {
			continue
		}
		for _, file := range p.Syntax {
			if !strings.HasSuffix(w.P.Prog.Fset.Position(file.Pos()).Filename, "/tx.pb.go") {
				continue
			}
			var raw []byte
			ast.Inspect(file, func(n ast.Node) bool {
				vs, ok := n.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || !strings.HasPrefix(vs.Names[0].Name, "fileDescriptor_") || len(vs.Values) != 1 {
					return true
				}
				lit, ok := vs.Values[0].(*ast.CompositeLit)
				if !ok {
					return true
				}
				for _, e := range lit.Elts {
					if tv, ok := p.TypesInfo.Types[e]; ok && tv.Value != nil {
						v, _ := constant.Int64Val(tv.Value)
						raw = append(raw, byte(v))
					}
				}
				return true
			})
			z, err := gzip.NewReader(bytes.NewReader(raw))
			if err != nil {
				return nil, err.Error()
			}
			b, err := io.ReadAll(z)
			if err != nil {
				return nil, err.Error()
			}
			pbFields(b, func(num int, _ uint64, msg []byte) {
				if num != 4 { // FileDescriptorProto.message_type
					return
				}
				name, signer := "", []string{}
				pbFields(msg, func(num int, _ uint64, x []byte) {
					switch num {
					case 1: // DescriptorProto.name
						name = string(x)
					case 7: // DescriptorProto.options
						pbFields(x, func(num int, _ uint64, s []byte) {
							if num == 11110000 { // cosmos.msg.v1.signer
								signer = append(signer, string(s))
							}
						})
					}
				})
				if len(signer) > 0 {
					res[name] = strings.Join(signer, ",")
				}
			})
		}
	}
	return res, ""
}

// pbFields walks the fields of an encoded protobuf message.
func pbFields(b []byte, f func(num int, v uint64, data []byte)) {
	varint := func() (uint64, bool) {
		var v uint64
		for i := 0; i < 10 && len(b) > 0; i++ {
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << (7 * i)
			if c < 0x80 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		tag, ok := varint()
		if !ok {
			return
		}
		switch tag & 7 {
		case 0:
			v, ok := varint()
			if !ok {
				return
			}
			f(int(tag>>3), v, nil)
		case 2:
			n, ok := varint()
			if !ok || n > uint64(len(b)) {
				return
			}
			f(int(tag>>3), 0, b[:n])
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return
			}
			b = b[4:]
		default:
			return
		}
	}
}

// goName is the Go field of a protobuf field.
func goName(s string) string {
	var b strings.Builder
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			b.WriteString(strings.ToUpper(p[:1]) + p[1:])
		}
	}
	return b.String()
}

// ownerOf: the field of each record that names its owner.
var ownerOf = map[string]string{"Order": "Orderer", "DepositRequest": "Depositor", "WithdrawRequest": "Withdrawer", "Pool": "Creator"}

func ruleP40(w *World, r *R) {
	signers, err := w.declaredSigners()
	r.ob("DECLARED", "tx.pb.go", 0, err == "" && len(signers) > 0, "cannot read the descriptor: %s", err)
	for _, n := range append([]string{"UpdateParams"}, checkedMsgs...) {
		e := w.ByName[n]
		if !r.ob("DECLARED", "Msg"+n, 0, e != nil && signers["Msg"+n] != "", "declares no signer") {
			continue
		}
		who := F(e.Msg, goName(signers["Msg"+n]))
		if !r.ob("DECLARED", "Msg"+n, 0, who != nil, "declares the signer %q, which is no field", signers["Msg"+n]) {
			continue
		}
		if fn := w.P.fn(pTypes, "Msg"+n, "GetSigners"); fn != nil {
			x := w.run(fn)
			me := F(x.Args[0], goName(signers["Msg"+n]))
			r.ob("SIGNERS", "Msg"+n, fn.Pos(), x.Err == "" && len(x.rets()) > 0, "cannot analyse GetSigners: %s", x.Err)
			for _, o := range x.Outs {
				if o.Kind != "ret" {
					r.ob("SIGNERS", "Msg"+n, o.Pos, o.Facts().contra(bech32OK(me)), "panics on %s", factList(o.Facts()))
					continue
				}
				v := o.Vals[0]
				r.ob("SIGNERS", "Msg"+n, o.Pos, v.Op == "list" && len(v.Args) == 1 && v.Args[0] == addrOf(me), "the signers are %v, not the %s", v, signers["Msg"+n])
			}
		}
		own := mk("cat", "", nil, mk("byte", "", nil, constInt(w.Pfx["OrderIndex"])), mk("lenpfx", "", nil, addrOf(who)))
		for _, u := range w.Units(e) {
			f := u.Facts
			if n == "UpdateParams" {
				continue
			}
			for _, t := range transfers(u.Events) {
				ok := f.sameDeep(t.From, addrOf(who)) || w.moduleOwned(f, t.From)
				r.ob("SPENDS-OWN", u.where(), t.Ev.Pos, ok, "moves coins out of %v, which neither signs nor belongs to the module", t.From)
			}
			for rec, owner := range ownerOf {
				for _, wr := range writes(u.Events, rec) {
					o := F(wr.Val, owner)
					if rec == "Order" && wr.Base != nil && o == F(wr.Base, owner) && wr.Base.contains(func(t *Term) bool {
						return t.Op == "iterkey" && t.Args[0].Op == "iter" && t.Args[0].Args[0] == own
					}) { // found through the signer's own index
						o = who
					}
					ok := o != nil && f.sameDeep(o, who)
					ok = ok || rec == "Pool" && wr.Base != nil && o == F(wr.Base, owner)
					r.ob("FOR-SIGNER", u.where(), wr.Ev.Pos, ok, "stores a %s of %v, who does not sign", rec, o)
				}
			}
		}
	}
	r.floor("SIGNERS", len(checkedMsgs))
	r.floor("SPENDS-OWN", 10)
	r.floor("FOR-SIGNER", 8)
}

// moduleOwned: an account that no key controls: a module account or the escrow
// or reserve account of a stored pair or pool.
func (w *World) moduleOwned(f *Facts, a *Term) bool {
	switch {
	case a.Op == "call" && (strings.HasSuffix(a.Name, ".GetModuleAddress") || strings.HasSuffix(a.Name, "address.Module")):
		return true
	case a.Op == "addr" && a.Args[0].Op == "field":
		rec := a.Args[0].Args[0]
		t := typeName(rec.Typ)
		return t == pTypes+".Pair" && a.Args[0].Name == "EscrowAddress" || t == pTypes+".Pool" && a.Args[0].Name == "ReserveAddress"
	}
	return false
}
