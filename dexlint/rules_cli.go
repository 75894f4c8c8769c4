package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// P43: each command sends the message or the query its usage text describes,
// made of the arguments and flags it names.

const (
	pCli     = "defund/x/dex/client/cli"
	pClient  = "github.com/cosmos/cosmos-sdk/client"
	pflagSet = "(*github.com/spf13/pflag.FlagSet)."
	cobraCmd = "(*github.com/spf13/cobra.Command)."
)

// cliPath is one path through a command: what was called and what is known.
type cliPath struct {
	w   *World
	u   *Unit
	cmd *cliCmd
	run *FnRun
}

// arg is the argument the usage text names, nil if it names none.
func (p *cliPath) arg(name string) *Term {
	for i, n := range p.cmd.places {
		if n == name {
			return mkElem(p.run.Args[1], ci(i))
		}
	}
	return nil
}

// flag is the value read from a flag.
func (p *cliPath) flag(kind, name string) *Term {
	for _, ev := range p.u.Events {
		if ev.Kind == "call" && ev.Name == pflagSet+"Get"+kind && ev.Args[1] == constStr(name) && ev.Res != nil && p.ownFlags(ev.Args[0]) {
			return proj(ev.Res, 0)
		}
	}
	return nil
}

func (p *cliPath) ownFlags(fs *Term) bool {
	for _, ev := range p.u.Events {
		if ev.Kind == "call" && ev.Name == cobraCmd+"Flags" && ev.Res == fs {
			return ev.Args[0] == p.run.Args[0] || ev.Args[0].Op == "ref" || ev.Args[0].Op == "param"
		}
	}
	return false
}

// result of a call that is kept as an event.
func (p *cliPath) result(name string) *Event {
	for _, ev := range p.u.Events {
		if ev.Kind == "call" && ev.Name == name && ev.Res != nil {
			return ev
		}
	}
	return nil
}

// cliVal decides that a field of the message is what the user gave (is), and
// that what the user gave is no such thing (bad).
type cliVal struct {
	what    string
	is      func(p *cliPath, t *Term) bool
	bad     func(p *cliPath) bool
	flagged [2]string // the flag it reads: kind and name
}

func never(p *cliPath) bool { return false }

// parsed: an argument read by a function that may refuse it.
func parsed(what, place, fn string, rest ...*Term) cliVal {
	read := func(p *cliPath) *Term {
		a := p.arg(place)
		if a == nil {
			return nil
		}
		return callT(fn, append([]*Term{a}, rest...)...)
	}
	fine := func(c *Term) Lit {
		if hasSuffix(fn, "NewIntFromString") {
			return Lit{proj(c, 1), true}
		}
		return isNilL(proj(c, 1))
	}
	return cliVal{what: what + " of [" + place + "]",
		is: func(p *cliPath, t *Term) bool {
			c := read(p)
			return c != nil && p.u.Facts.has(fine(c)) && p.u.Facts.same(t, proj(c, 0))
		},
		bad: func(p *cliPath) bool { c := read(p); return c != nil && p.u.Facts.contra(fine(c)) },
	}
}

func cliId(place string) cliVal {
	return parsed("the number", place, "strconv.ParseUint", ci(10), ci(64))
}

func cliText(place string, check string) cliVal {
	return cliVal{what: "the text of [" + place + "]",
		is: func(p *cliPath, t *Term) bool { a := p.arg(place); return a != nil && p.u.Facts.same(t, a) },
		bad: func(p *cliPath) bool {
			a := p.arg(place)
			return check != "" && a != nil && p.u.Facts.contra(errNil(check, a))
		}}
}

// cliDirection: buy or b, sell or s.
func cliDirection(place string) cliVal {
	spelt := func(p *cliPath, s string) (yes, no bool) {
		a := p.arg(place)
		if a == nil {
			return
		}
		for _, l := range []Lit{eqL(callT("strings.ToLower", a), constStr(s)), {callT("strings.EqualFold", a, constStr(s)), true}} {
			yes = yes || p.u.Facts.has(l)
			no = no || p.u.Facts.contra(l)
		}
		return
	}
	sides := map[int][]string{1: {"buy", "b"}, 2: {"sell", "s"}}
	return cliVal{what: "the direction [" + place + "] spells",
		is: func(p *cliPath, t *Term) bool {
			for v, names := range sides {
				for _, s := range names {
					if yes, _ := spelt(p, s); yes {
						return p.u.Facts.same(t, ci(v))
					}
				}
			}
			return false
		},
		bad: func(p *cliPath) bool {
			for _, names := range sides {
				for _, s := range names {
					if _, no := spelt(p, s); !no {
						return false
					}
				}
			}
			return true
		}}
}

// cliIds: the numbers of a list separated by commas.
func cliIds(place string) cliVal {
	parts := func(p *cliPath) *Term { return callT("strings.Split", p.arg(place), constStr(",")) }
	return cliVal{what: "the numbers of [" + place + "]",
		is: func(p *cliPath, t *Term) bool {
			if p.arg(place) == nil {
				return false
			}
			l := parts(p)
			return p.w.collects(p.u, t, l, func(b *Unit, x *Term) bool {
				el := elemUnder(b, l)
				if el == nil {
					return false
				}
				c := callT("strconv.ParseUint", el, ci(10), ci(64))
				return x == proj(c, 0) && b.Facts.has(isNilL(proj(c, 1)))
			})
		},
		bad: func(p *cliPath) bool {
			if p.arg(place) == nil {
				return false
			}
			l := parts(p)
			for a, v := range p.u.Facts.m {
				if a.Op == "isnil" && !v && a.Args[0].Op == "res" {
					if c := a.Args[0].Args[0]; c.Op == "call" && c.Name == "strconv.ParseUint" && c.Args[0].Op == "elem" && c.Args[0].Args[0] == l && a.Args[0] == proj(c, 1) {
						return true
					}
				}
			}
			return false
		}}
}

func cliNone() cliVal {
	return cliVal{what: "no pair ids", bad: never, is: func(p *cliPath, t *Term) bool { return emptyList(t) }}
}

// cliFlag: the value of a flag as it is.
func cliFlag(kind, name string) cliVal {
	return cliVal{what: "--" + name, flagged: [2]string{kind, name}, bad: never,
		is: func(p *cliPath, t *Term) bool { v := p.flag(kind, name); return v != nil && p.u.Facts.same(t, v) }}
}

// cliOption: a flag left out means zero, otherwise its text is read.
func cliOption(name, fn string, value bool, rest ...*Term) cliVal {
	ok := func(v *Term) Lit { return isNilL(proj(callT(fn, append([]*Term{v}, rest...)...), 1)) }
	return cliVal{what: "--" + name, flagged: [2]string{"String", name},
		is: func(p *cliPath, t *Term) bool {
			v := p.flag("String", name)
			if v == nil {
				return false
			}
			f := p.u.Facts
			if f.has(eqL(mkLen(v), ci(0))) {
				if value {
					return t == ci(0) || t.Op == "zero"
				}
				return f.same(t, v) || t == constStr("")
			}
			if value {
				return f.contra(eqL(mkLen(v), ci(0))) && f.has(ok(v)) && f.same(t, proj(callT(fn, append([]*Term{v}, rest...)...), 0))
			}
			return f.has(ok(v)) && f.same(t, v)
		},
		bad: func(p *cliPath) bool {
			v := p.flag("String", name)
			return v != nil && p.u.Facts.contra(ok(v)) && p.u.Facts.contra(eqL(mkLen(v), ci(0)))
		}}
}

func cliPage() cliVal {
	name := pClient + ".ReadPageRequest"
	return cliVal{what: "the page the flags ask for", flagged: [2]string{"page", ""},
		is: func(p *cliPath, t *Term) bool {
			ev := p.result(name)
			return ev != nil && p.ownFlags(ev.Args[0]) && p.u.Facts.has(isNilL(proj(ev.Res, 1))) && t == proj(ev.Res, 0)
		},
		bad: func(p *cliPath) bool {
			ev := p.result(name)
			return ev != nil && p.u.Facts.contra(isNilL(proj(ev.Res, 1)))
		}}
}

// cliSigner: the address the user signs with.
func cliSigner() cliVal {
	return cliVal{what: "the address of --from", bad: never, is: func(p *cliPath, t *Term) bool {
		ev := p.result("(" + pClient + ".Context).GetFromAddress")
		ctx := p.result(pClient + ".GetClientTxContext")
		return ev != nil && ctx != nil && ev.Args[0] == proj(ctx.Res, 0) && t.Op == "addrstr" && t.Args[0] == ev.Res
	}}
}

// cliAlt is one request a command can send, under a condition.
type cliAlt struct {
	when   func(p *cliPath) []Lit
	req    string // the type of the message or request
	method string // for queries
	fields map[string]cliVal
}

type cliSpec struct {
	name string
	alts []cliAlt
	// refuse: further requests that are refused
	refuse func(p *cliPath) bool
}

func cliSpecs() (txs, queries []cliSpec) {
	coins := func(pl string) cliVal { return parsed("the coins", pl, pSDK+".ParseCoinsNormalized") }
	coin := func(pl string) cliVal { return parsed("the coin", pl, pSDK+".ParseCoinNormalized") }
	dec := func(pl string) cliVal { return parsed("the number", pl, pMath+".LegacyNewDecFromStr") }
	amt := func(pl string) cliVal { return parsed("the amount", pl, pMath+".NewIntFromString") }
	tx := func(name, msg, signer string, fields map[string]cliVal) {
		fields[signer] = cliSigner()
		txs = append(txs, cliSpec{name: name, alts: []cliAlt{{req: msg, fields: fields}}})
	}
	type m = map[string]cliVal
	tx("create-pair", "MsgCreatePair", "Creator", m{"BaseCoinDenom": cliText("base-coin-denom", pSDK+".ValidateDenom"), "QuoteCoinDenom": cliText("quote-coin-denom", pSDK+".ValidateDenom")})
	tx("create-pool", "MsgCreatePool", "Creator", m{"PairId": cliId("pair-id"), "DepositCoins": coins("deposit-coins")})
	tx("create-ranged-pool", "MsgCreateRangedPool", "Creator", m{"PairId": cliId("pair-id"), "DepositCoins": coins("deposit-coins"),
		"MinPrice": dec("min-price"), "MaxPrice": dec("max-price"), "InitialPrice": dec("initial-price")})
	tx("deposit", "MsgDeposit", "Depositor", m{"PoolId": cliId("pool-id"), "DepositCoins": coins("deposit-coins")})
	tx("withdraw", "MsgWithdraw", "Withdrawer", m{"PoolId": cliId("pool-id"), "PoolCoin": coin("pool-coin")})
	order := func(priced bool) map[string]cliVal {
		x := m{"PairId": cliId("pair-id"), "Direction": cliDirection("direction"), "OfferCoin": coin("offer-coin"),
			"DemandCoinDenom": cliText("demand-coin-denom", pSDK+".ValidateDenom"), "Amount": amt("amount"), "OrderLifespan": cliFlag("Duration", "order-lifespan")}
		if priced {
			x["Price"] = dec("price")
		}
		return x
	}
	tx("limit-order", "MsgLimitOrder", "Orderer", order(true))
	tx("market-order", "MsgMarketOrder", "Orderer", order(false))
	tx("mm-order", "MsgMMOrder", "Orderer", order(true))
	tx("cancel-order", "MsgCancelOrder", "Orderer", m{"PairId": cliId("pair-id"), "OrderId": cliId("order-id")})
	given := func(p *cliPath) Lit { return neL(mkLen(p.run.Args[1]), ci(0)) }
	lits := func(ls ...func(p *cliPath) Lit) func(p *cliPath) []Lit {
		return func(p *cliPath) (r []Lit) {
			for _, l := range ls {
				r = append(r, l(p))
			}
			return
		}
	}
	not := func(l func(p *cliPath) Lit) func(p *cliPath) Lit {
		return func(p *cliPath) Lit { return notL(l(p)) }
	}
	txs = append(txs, cliSpec{name: "cancel-all-orders", alts: []cliAlt{
		{req: "MsgCancelAllOrders", when: lits(not(given)), fields: m{"Orderer": cliSigner(), "PairIds": cliNone()}},
		{req: "MsgCancelAllOrders", when: lits(given), fields: m{"Orderer": cliSigner(), "PairIds": cliIds("pair-ids")}},
	}})
	q := func(name, method, req string, fields map[string]cliVal) {
		queries = append(queries, cliSpec{name: name, alts: []cliAlt{{req: req, method: method, fields: fields}}})
	}
	pairFlag := cliOption("pair-id", "strconv.ParseUint", true, ci(10), ci(64))
	q("params", "Params", "QueryParamsRequest", m{})
	q("pairs", "Pairs", "QueryPairsRequest", m{"Denoms": cliFlag("StringSlice", "denoms"), "Pagination": cliPage()})
	q("pair", "Pair", "QueryPairRequest", m{"PairId": cliId("pair-id")})
	q("pools", "Pools", "QueryPoolsRequest", m{"PairId": pairFlag, "Disabled": cliOption("disabled", "strconv.ParseBool", false), "Pagination": cliPage()})
	q("deposit-requests", "DepositRequests", "QueryDepositRequestsRequest", m{"PoolId": cliId("pool-id"), "Pagination": cliPage()})
	q("deposit-request", "DepositRequest", "QueryDepositRequestRequest", m{"PoolId": cliId("pool-id"), "Id": cliId("id")})
	q("withdraw-requests", "WithdrawRequests", "QueryWithdrawRequestsRequest", m{"PoolId": cliId("pool-id"), "Pagination": cliPage()})
	q("withdraw-request", "WithdrawRequest", "QueryWithdrawRequestRequest", m{"PoolId": cliId("pool-id"), "Id": cliId("id")})
	q("order", "Order", "QueryOrderRequest", m{"PairId": cliId("pair-id"), "Id": cliId("id")})
	q("order-books", "OrderBooks", "QueryOrderBooksRequest", m{"PairIds": cliIds("pair-ids"), "NumTicks": cliFlag("Uint32", "num-ticks")})
	set := func(name string) func(p *cliPath) Lit {
		return func(p *cliPath) Lit {
			v := p.flag("String", name)
			if v == nil {
				v = mk("unread", name, nil)
			}
			return neL(mkLen(v), ci(0))
		}
	}
	coinF, addrF := set("pool-coin-denom"), set("reserve-address")
	queries = append(queries, cliSpec{name: "pool", alts: []cliAlt{
		{method: "Pool", req: "QueryPoolRequest", when: lits(given, not(coinF), not(addrF)), fields: m{"PoolId": cliId("pool-id")}},
		{method: "PoolByPoolCoinDenom", req: "QueryPoolByPoolCoinDenomRequest", when: lits(not(given), coinF, not(addrF)), fields: m{"PoolCoinDenom": cliFlag("String", "pool-coin-denom")}},
		{method: "PoolByReserveAddress", req: "QueryPoolByReserveAddressRequest", when: lits(not(given), not(coinF), addrF), fields: m{"ReserveAddress": cliFlag("String", "reserve-address")}},
	}, refuse: func(p *cliPath) bool { return p.u.Facts.has(given(p)) && cliId("pool-id").bad(p) }})
	queries = append(queries, cliSpec{name: "orders", alts: []cliAlt{
		{method: "Orders", req: "QueryOrdersRequest", when: lits(not(given)), fields: m{"PairId": pairFlag, "Pagination": cliPage()}},
		{method: "OrdersByOrderer", req: "QueryOrdersByOrdererRequest", when: lits(given), fields: m{"Orderer": cliText("orderer", ""), "PairId": pairFlag, "Pagination": cliPage()}},
	}, refuse: func(p *cliPath) bool {
		// neither an orderer nor a pair
		v := p.flag("String", "pair-id")
		return p.u.Facts.contra(given(p)) && v != nil && (p.u.Facts.has(eqL(mkLen(v), ci(0))) || p.u.Facts.has(eqL(proj(callT("strconv.ParseUint", v, ci(10), ci(64)), 0), ci(0))))
	}})
	return
}

// cliCmd is a command as the constructors build it.
type cliCmd struct {
	name, use string
	obj, str  *Term
	places    []string
	min, max  int
	runE      *Term
	pos       token.Pos
	flags     map[string]string // name → kind
	adds      map[string]bool
	st        *State
}

var placeRE = regexp.MustCompile(`\[([a-z-]+)\]`)

// cliCommands lists the commands under a root command.
func (w *World) cliCommands(root string, r *R) (cmds []*cliCmd) {
	fn := w.P.fn(pCli, "", root)
	run := w.run(fn)
	rets := run.rets()
	if !r.ob("COMMANDS", root, token.NoPos, run.Err == "" && len(rets) == 1, "%s cannot be read: %s", root, run.Err) {
		return nil
	}
	o := rets[0]
	evs := o.Events()
	var list []*Term
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == cobraCmd+"AddCommand" && ev.Args[0] == o.Vals[0] && len(ev.Args) == 2 {
			if !r.ob("COMMANDS", root, ev.Pos, ev.Args[1].Op == "list", "the commands added cannot be told") {
				return nil
			}
			list = append(list, ev.Args[1].Args...)
		}
	}
	fields := structOf(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
	fld := func(t *Term, name string) *Term {
		for i := 0; i < fields.NumFields(); i++ {
			if fields.Field(i).Name() == name && i < len(t.Args) {
				return t.Args[i]
			}
		}
		return nil
	}
	for _, obj := range list {
		c := &cliCmd{obj: obj, flags: map[string]string{}, adds: map[string]bool{}, st: o.St}
		sets := map[*Term]bool{}
		for _, ev := range evs {
			for i, a := range ev.Args {
				if a == obj && c.str == nil && i < len(ev.Snap) && ev.Snap[i].Op == "ref" && len(ev.Snap[i].Args) == 1 && ev.Snap[i].Args[0].Op == "struct" {
					c.str = ev.Snap[i].Args[0]
					c.pos = ev.Pos
				}
			}
			if ev.Kind == "call" && ev.Name == cobraCmd+"AddCommand" && ev.Args[1].Op == "list" {
				for i, a := range ev.Args[1].Args {
					if s := ev.Snap[1]; a == obj && c.str == nil && s.Op == "list" && s.Args[i].Op == "ref" && s.Args[i].Args[0].Op == "struct" {
						c.str = s.Args[i].Args[0]
						c.pos = ev.Pos
					}
				}
			}
			if ev.Kind == "call" && ev.Name == cobraCmd+"Flags" && ev.Args[0] == obj {
				sets[ev.Res] = true
			}
			if ev.Kind == "call" && ev.Name == pflagSet+"AddFlagSet" && sets[ev.Args[0]] {
				sets[ev.Args[1]] = true
			}
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, pClient+"/flags.Add") && ev.Args[0] == obj {
				c.adds[ev.Name[strings.LastIndex(ev.Name, ".")+1:]] = true
			}
		}
		for _, ev := range evs {
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, pflagSet) && len(ev.Args) > 2 && sets[ev.Args[0]] && ev.Args[1].Op == "str" {
				c.flags[strVal(ev.Args[1])] = strings.TrimSuffix(strings.TrimPrefix(ev.Name, pflagSet), "P")
			}
		}
		if !r.ob("COMMANDS", root, token.NoPos, c.str != nil, "a command added is not known: %v", obj) {
			continue
		}
		use := fld(c.str, "Use")
		if !r.ob("COMMANDS", root, c.pos, use != nil && use.Op == "str", "the usage text of a command is not a constant: %v", use) {
			continue
		}
		c.use = strVal(use)
		c.name = strings.Fields(c.use + " ?")[0]
		for _, m := range placeRE.FindAllStringSubmatch(c.use, -1) {
			c.places = append(c.places, m[1])
		}
		c.min, c.max = 0, -1
		if a := fld(c.str, "Args"); a != nil {
			switch {
			case a.Op == "func" && a.Name == "github.com/spf13/cobra.NoArgs" || a.Op == "func" && hasSuffix(a.Name, "cobra.NoArgs"):
				c.max = 0
			default:
				for _, ev := range evs {
					if ev.Kind == "call" && ev.Res == a && len(ev.Args) > 0 {
						n, ok := ev.Args[0].intVal()
						if !ok {
							continue
						}
						switch ev.Name {
						case "github.com/spf13/cobra.ExactArgs":
							c.min, c.max = int(n.Int64()), int(n.Int64())
						case "github.com/spf13/cobra.MaximumNArgs":
							c.max = int(n.Int64())
						case "github.com/spf13/cobra.RangeArgs":
							if m, ok := ev.Args[1].intVal(); ok {
								c.min, c.max = int(n.Int64()), int(m.Int64())
							}
						}
					}
				}
			}
		}
		c.runE = fld(c.str, "RunE")
		cmds = append(cmds, c)
	}
	return cmds
}

// runCmd analyses what a command does when it is run.
func (w *World) runCmd(c *cliCmd) *FnRun {
	x := &FnRun{}
	var bs []*Term
	switch {
	case c.runE == nil:
	case c.runE.Op == "func":
		x.Fn = w.P.funcs[c.runE]
	case c.runE.Op == "closure":
		x.Fn, bs = w.P.closures[c.runE], c.runE.Args
	}
	if x.Fn == nil || len(x.Fn.Blocks) == 0 || len(x.Fn.Params) != 2 {
		x.Err = fmt.Sprintf("what the command runs cannot be told: %v", c.runE)
		return x
	}
	x.In = NewInterp(w.P, inlineAll)
	for i, p := range x.Fn.Params {
		x.Args = append(x.Args, entryParam(p, i))
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				x.Err = fmt.Sprint("analysis stopped: ", e)
			}
		}()
		st := x.In.freshState()
		if len(bs) > 0 {
			st = c.st.clone()
			st.ev = nil
		}
		x.Outs = x.In.execFunc(x.Fn, x.Args, bs, st, "")
		if x.In.Aborted != "" {
			x.Err = x.In.Aborted
		}
	}()
	for f := range x.In.Analysed {
		w.fns[f] = true
	}
	return x
}

func ruleP43(w *World, r *R) {
	txs, queries := cliSpecs()
	for _, g := range []struct {
		root  string
		specs []cliSpec
		tx    bool
	}{{"GetTxCmd", txs, true}, {"GetQueryCmd", queries, false}} {
		byName := map[string]*cliCmd{}
		for _, c := range w.cliCommands(g.root, r) {
			r.ob("ONE-NAME", c.name, c.pos, byName[c.name] == nil, "two commands are called %s", c.name)
			byName[c.name] = c
		}
		for _, s := range g.specs {
			c := byName[s.name]
			if r.ob("HAS-COMMAND", s.name, token.NoPos, c != nil, "%s has no command %s", g.root, s.name) {
				w.cliCommand(c, s, g.tx, r)
			}
		}
	}
	r.floor("HAS-COMMAND", len(txs)+len(queries))
	r.floor("SENDS", len(txs)+len(queries))
}

func (w *World) cliCommand(c *cliCmd, s cliSpec, tx bool, r *R) {
	at := c.name
	r.ob("ARG-COUNT", at, c.pos, c.max == len(c.places) && (c.min == c.max || c.min == 0), "%q takes %d to %d arguments", c.use, c.min, c.max)
	if tx {
		r.ob("FLAGS", at, c.pos, c.adds["AddTxFlagsToCmd"], "the transaction flags are not added")
	} else {
		r.ob("FLAGS", at, c.pos, c.adds["AddQueryFlagsToCmd"], "the query flags are not added")
	}
	for _, a := range s.alts {
		for _, v := range a.fields {
			switch {
			case v.flagged[0] == "":
			case v.flagged[0] == "page":
				r.ob("FLAGS", at, c.pos, c.adds["AddPaginationFlagsToCmd"], "the pagination flags are not added")
			default:
				r.ob("FLAGS", at+" --"+v.flagged[1], c.pos, c.flags[v.flagged[1]] == v.flagged[0], "--%s is defined as %q and read as %s", v.flagged[1], c.flags[v.flagged[1]], v.flagged[0])
			}
		}
	}
	run := w.runCmd(c)
	if !r.ob("READABLE", at, c.pos, run.Err == "", "%s", run.Err) {
		return
	}
	args := run.Args[1]
	sent := map[int]bool{}
	for _, o := range run.Outs {
		if !r.ob("NO-PANIC", at, o.Pos, o.Kind == "ret", "the command can panic") {
			continue
		}
		u := &Unit{Entry: &Entry{Name: c.name, Kind: "fn", Fn: run.Fn, In: run.In}, Events: o.Events(), Facts: o.Facts(), Out: o}
		p := &cliPath{w, u, c, run}
		// arguments read are there
		over := map[int]bool{}
		look := func(t *Term) {
			t.walk(func(t *Term) bool {
				if t.Op == "elem" && t.Args[0] == args {
					n, ok := t.Args[1].intVal()
					i := 1 << 20
					if ok && n.IsInt64() {
						i = int(n.Int64())
					}
					if i >= c.min && !u.Facts.has(ltL(t.Args[1], mkLen(args), true)) && !(i == 0 && u.Facts.contra(eqL(mkLen(args), ci(0)))) {
						over[i] = true
					}
				}
				return true
			})
		}
		for a := range u.Facts.m {
			look(a)
		}
		for _, ev := range u.Events {
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Snap...) {
				look(a)
			}
		}
		r.ob("ARG-THERE", at, o.Pos, len(over) == 0, "argument %v is read without knowing it was given", keysOf(over))
		// what is sent
		var act []*Event
		for _, ev := range u.Events {
			if ev.Kind == "call" && (hasSuffix(ev.Name, "/client/tx.GenerateOrBroadcastTxCLI") || hasSuffix(ev.Name, "client.Context).Invoke") || strings.Contains(ev.Name, "BroadcastTx")) {
				act = append(act, ev)
			}
			for _, b := range ev.Bodies {
				for _, e := range allEvents(b.Events) {
					r.ob("SENDS", at, e.Pos, !hasSuffix(e.Name, "GenerateOrBroadcastTxCLI") && !hasSuffix(e.Name, "client.Context).Invoke"), "something is sent in a loop")
				}
			}
		}
		ctxName := pClient + ".GetClientQueryContext"
		if tx {
			ctxName = pClient + ".GetClientTxContext"
		}
		ctx := p.result(ctxName)
		holds := func(a cliAlt) (all, none bool) {
			all = true
			if a.when == nil {
				return
			}
			for _, l := range a.when(p) {
				all = all && u.Facts.has(l)
				none = none || u.Facts.contra(l)
			}
			return
		}
		if len(act) == 0 {
			// nothing is sent only because the input is no good
			good := ctx != nil && u.Facts.contra(isNilL(proj(ctx.Res, 1))) || s.refuse != nil && s.refuse(p)
			every := true
			for _, a := range s.alts {
				_, none := holds(a)
				every = every && none
				for _, v := range a.fields {
					good = good || !none && v.bad(p)
				}
			}
			r.ob("REFUSES-BAD", at, o.Pos, good || every, "nothing is sent though nothing is wrong with the input: %s", factList(u.Facts))
			r.ob("TELLS-ERROR", at, o.Pos, !o.Success(), "nothing is sent and no error is returned")
			continue
		}
		if !r.ob("SENDS", at, o.Pos, len(act) == 1, "%d things are sent", len(act)) {
			continue
		}
		ev := act[0]
		var req *Term
		if tx && len(ev.Snap) == 3 && ev.Snap[2].Op == "list" && len(ev.Snap[2].Args) == 1 {
			req = ev.Snap[2].Args[0]
		} else if !tx && len(ev.Snap) > 4 {
			req = ev.Snap[3]
		}
		for req != nil && (req.Op == "iface" || req.Op == "ref") && len(req.Args) == 1 {
			req = req.Args[0]
		}
		name, known := "", false
		fields := map[string]*Term{}
		if req != nil && (req.Op == "struct" || req.Op == "zero") {
			name = req.Name[strings.LastIndex(req.Name, ".")+1:]
			st := structOf(w.P.namedType(pTypes, name))
			known = st != nil
			for i := 0; known && i < st.NumFields(); i++ {
				fields[st.Field(i).Name()] = mk("zero", "", st.Field(i).Type())
				if i < len(req.Args) {
					fields[st.Field(i).Name()] = req.Args[i]
				}
			}
		}
		if !r.ob("SENDS", at, ev.Pos, known, "what is sent cannot be told: %v", req) {
			continue
		}
		own := ctx != nil && ev.Args[0] == proj(ctx.Res, 0) && u.Facts.has(isNilL(proj(ctx.Res, 1)))
		r.ob("OWN-CONTEXT", at, ev.Pos, own && (!tx || p.ownFlags(ev.Args[1])), "it is not sent through the context of the command line")
		fits := -1
		for i, a := range s.alts {
			all, _ := holds(a)
			if all && a.req == name && (tx || ev.Args[2] == constStr("/defund.dex.Query/"+a.method)) {
				fits = i
			}
		}
		if !r.ob("SENDS", at, ev.Pos, fits >= 0, "a %s is sent (%v)", name, ev.Args[min(2, len(ev.Args)-1)]) {
			continue
		}
		sent[fits] = true
		for f, t := range fields {
			v, ok := s.alts[fits].fields[f]
			if !ok {
				r.ob("FIELD", at+" "+f, ev.Pos, t.Op == "zero" || emptyList(t) || t == ci(0), "%s is %v, which nothing describes", f, t)
				continue
			}
			r.ob("FIELD", at+" "+f, ev.Pos, v.is(p, t), "%s of the %s is not %s: %v", f, name, v.what, t)
		}
		for f := range s.alts[fits].fields {
			r.ob("FIELD", at+" "+f, ev.Pos, fields[f] != nil, "the %s has no %s", name, f)
		}
		if tx {
			r.ob("TELLS-RESULT", at, o.Pos, ev.Res != nil && o.Vals[0] == ev.Res, "the result of sending is not returned: %v", o.Vals[0])
			continue
		}
		if s.refuse != nil {
			r.ob("REFUSES", at, o.Pos, !s.refuse(p), "a query is sent for input that names nothing")
		}
		if u.Facts.has(isNilL(ev.Res)) {
			pr := p.result("(" + pClient + ".Context).PrintProto")
			reply := ev.Args[4]
			for reply.Op == "iface" {
				reply = reply.Args[0]
			}
			shown := pr != nil && pr.Args[0] == ev.Args[0] && pr.Args[1].contains(func(t *Term) bool { return t == reply })
			r.ob("SHOWS-REPLY", at, o.Pos, shown && o.Vals[0] == pr.Res, "the reply is not printed")
		} else {
			r.ob("TELLS-ERROR", at, o.Pos, u.Facts.contra(isNilL(ev.Res)) && !o.Success(), "a failed query is not reported")
		}
	}
	for i, a := range s.alts {
		r.ob("CAN-SEND", fmt.Sprintf("%s %s/%d", at, a.req, i), c.pos, sent[i], "the command never sends a %s", a.req)
	}
}

func keysOf(m map[int]bool) (r []int) {
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return
}
