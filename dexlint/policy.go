package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// defaultPolicy inlines everything in the repository except the numeric amm
// package, whose exported functions are treated as uninterpreted.
func defaultPolicy(fn *ssa.Function) int {
	pkg := fnPkgPath(fn)
	if fn.Name() == "String" && fn.Signature.Recv() != nil && pkg == pTypes {
		return OpaquePure
	}
	if fn.Synthetic != "" && fn.Object() == nil {
		return Inline
	}
	if pkg == pTypes { // what shows an order book is analysed by itself
		for _, p := range fn.Params {
			if n := typeName(p.Type()); strings.HasPrefix(strings.TrimPrefix(n, "*"), pAmm+".") && strings.HasSuffix(n, "View") {
				return OpaqueEvent
			}
		}
	}
	if pkg == pAmm && (fn.Name() == "OfferCoinAmount" || fn.Name() == "NewBaseOrder") {
		return Inline
	}
	if pkg == pAmm {
		if delegates(fn) && !(fn.Signature.Recv() == nil && specified[fn.Name()]) {
			return Inline
		}
		if fn.Signature.Results().Len() == 0 {
			return OpaqueEvent
		}
		if strings.Contains(fn.String(), "OrderBook)") || fn.Name() == "NewOrderBook" {
			return OpaqueEvent
		}
		return OpaquePure
	}
	return Inline
}

// specified are the functions of the amm package that rules speak of by name;
// the others may be inlined when they only delegate.
var specified = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`CreateBasicPool CreateRangedPool Deposit DistributeOrderAmountToOrders
		DistributeOrderAmountToTick DownTick FillOrder FindMatchPrice FulfillOrder FulfillOrders GroupOrdersByBatchId
		HighestTick InitialPoolCoinSupply LowestTick MatchableAmount NewBasicPool NewOrderBook NewRangedPool
		PoolBuyOrders PoolOrders PoolSellOrders PriceToDownTick PriceToUpTick RoundPrice RoundTickIndex
		TickFromIndex TickGap TickToIndex TotalAmount TotalMatchableAmount UpTick ValidateRangedPoolParams Withdraw`) {
		specified[n] = true
	}
}

// delegates: the function only hands its arguments to another of its package.
func delegates(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 {
		return false
	}
	n := 0
	for _, ins := range fn.Blocks[0].Instrs {
		switch x := ins.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || fnPkgPath(g) != pAmm {
				return false
			}
			n++
		case *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.DebugRef:
		default:
			return false
		}
	}
	return n == 1
}
