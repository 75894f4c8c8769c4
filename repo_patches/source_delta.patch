From a21d8c8d1468b0dd4b6a97703ffc0c01505c3153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 01/11] fix: compute accepted deposit amounts exactly, rounding
 in favour of the pool

---
 x/dex/amm/pool.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index de2e851..5b2e2f4 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -498,9 +498,8 @@ func Deposit(rx, ry, ps, x, y sdk.Int) (ax, ay, pc sdk.Int) {
 		}
 		pc = ps.MulTruncate(ratio).TruncateInt()
 
-		mintProportion := pc.ToLegacyDec().Quo(ps)       // pc / ps
-		ax = rx.Mul(mintProportion).Ceil().TruncateInt() // ceil(rx * mintProportion)
-		ay = ry.Mul(mintProportion).Ceil().TruncateInt() // ceil(ry * mintProportion)
+		ax = mulQuoCeil(rx.TruncateInt(), pc, ps.TruncateInt()) // ceil(rx * pc / ps)
+		ay = mulQuoCeil(ry.TruncateInt(), pc, ps.TruncateInt()) // ceil(ry * pc / ps)
 	}, func() {
 		ax, ay, pc = sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt()
 	})
@@ -508,6 +507,16 @@ func Deposit(rx, ry, ps, x, y sdk.Int) (ax, ay, pc sdk.Int) {
 	return
 }
 
+// mulQuoCeil returns ceil(a * b / c), without losing precision in between.
+// a, b and c must not be negative.
+func mulQuoCeil(a, b, c sdk.Int) sdk.Int {
+	q, m := new(big.Int).QuoRem(new(big.Int).Mul(a.BigInt(), b.BigInt()), c.BigInt(), new(big.Int))
+	if m.Sign() > 0 {
+		q.Add(q, big.NewInt(1))
+	}
+	return sdk.NewIntFromBigInt(q)
+}
+
 // Withdraw returns withdrawn x and y coin amount when someone withdraws
 // pc pool coin.
 // Withdraw also takes care of the fee rate.
-- 
2.43.0


From 0dc07c0ed2c2f4456be3d38f6c2805f09fbf231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 02/11] fix: import and export the whole dex state in the
 module genesis

---
 x/dex/module/genesis.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/dex/module/genesis.go b/x/dex/module/genesis.go
index 1686aed..b304af8 100644
--- a/x/dex/module/genesis.go
+++ b/x/dex/module/genesis.go
@@ -10,15 +10,11 @@ import (
 // InitGenesis initializes the module's state from a provided genesis state.
 func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState) {
 	// this line is used by starport scaffolding # genesis/module/init
-	k.SetParams(ctx, genState.Params)
+	k.InitGenesis(ctx, genState)
 }
 
 // ExportGenesis returns the module's exported genesis.
 func ExportGenesis(ctx sdk.Context, k keeper.Keeper) *types.GenesisState {
-	genesis := types.DefaultGenesis()
-	genesis.Params = k.GetParams(ctx)
-
 	// this line is used by starport scaffolding # genesis/module/export
-
-	return genesis
+	return k.ExportGenesis(ctx)
 }
-- 
2.43.0


From f9b185a67655a4e8b2dae42310d4c26813d90501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 03/11] fix: accept one-sided deposit requests in genesis
 validation

---
 x/dex/types/genesis.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 024ccab..ac635ab 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -67,9 +67,11 @@ func (genState GenesisState) Validate() error {
 			return fmt.Errorf("deposit request at index %d has wrong minted pool coin: %s", i, req.MintedPoolCoin)
 		}
 		pair := pairMap[pool.PairId]
-		if req.DepositCoins.AmountOf(pair.BaseCoinDenom).IsZero() ||
-			req.DepositCoins.AmountOf(pair.QuoteCoinDenom).IsZero() {
-			return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+		for _, coin := range req.DepositCoins {
+			// A deposit to a ranged pool can have only one of the two coins.
+			if coin.Denom != pair.BaseCoinDenom && coin.Denom != pair.QuoteCoinDenom {
+				return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+			}
 		}
 		if set, ok := depositReqSet[req.PoolId]; ok {
 			if _, ok := set[req.Id]; ok {
-- 
2.43.0


From 6748f04afd1cb534a7cd7cd1fe658c708945857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 04/11] fix: keep the authority and the logger in the dex
 keeper

---
 x/dex/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/dex/keeper/keeper.go b/x/dex/keeper/keeper.go
index a784a46..b806e6e 100644
--- a/x/dex/keeper/keeper.go
+++ b/x/dex/keeper/keeper.go
@@ -46,6 +46,8 @@ func NewKeeper(
 	return Keeper{
 		cdc:           cdc,
 		storeService:  storeService,
+		logger:        logger,
+		authority:     authority,
 		paramSpace:    paramSpace,
 		accountKeeper: accountKeeper,
 		bankKeeper:    bankKeeper,
-- 
2.43.0


From 10d51281c6a9ad418a3e2f714c0d4ef3d9a7c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 05/11] fix: register the dex invariants with the crisis module

---
 x/dex/module/module.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/dex/module/module.go b/x/dex/module/module.go
index e1be265..5f07847 100644
--- a/x/dex/module/module.go
+++ b/x/dex/module/module.go
@@ -122,7 +122,9 @@ func (am AppModule) RegisterServices(cfg module.Configurator) {
 }
 
 // RegisterInvariants registers the invariants of the module. If an invariant deviates from its predicted value, the InvariantRegistry triggers appropriate logic (most often the chain will be halted)
-func (am AppModule) RegisterInvariants(_ sdk.InvariantRegistry) {}
+func (am AppModule) RegisterInvariants(ir sdk.InvariantRegistry) {
+	keeper.RegisterInvariants(ir, am.keeper)
+}
 
 // InitGenesis performs the module's genesis initialization. It returns no validator updates.
 func (am AppModule) InitGenesis(ctx sdk.Context, cdc codec.JSONCodec, gs json.RawMessage) {
-- 
2.43.0


From f8ba739721ad371064af6f1d9d8891299bfdf16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 06/11] fix: parse index keys with long denoms and addresses

---
 x/dex/types/keys.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/dex/types/keys.go b/x/dex/types/keys.go
index aa2d840..302d93a 100644
--- a/x/dex/types/keys.go
+++ b/x/dex/types/keys.go
@@ -158,9 +158,9 @@ func ParsePairsByDenomsIndexKey(key []byte) (denomA, denomB string, pairId uint6
 		panic("key does not have proper prefix")
 	}
 
-	denomALen := key[1]
+	denomALen := int(key[1])
 	denomA = string(key[2 : 2+denomALen])
-	denomBLen := key[2+denomALen]
+	denomBLen := int(key[2+denomALen])
 	denomB = string(key[3+denomALen : 3+denomALen+denomBLen])
 	pairId = sdk.BigEndianToUint64(key[3+denomALen+denomBLen:])
 
@@ -184,7 +184,7 @@ func ParseDepositRequestIndexKey(key []byte) (depositor sdk.AccAddress, poolId,
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	depositor = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -197,7 +197,7 @@ func ParseWithdrawRequestIndexKey(key []byte) (withdrawer sdk.AccAddress, poolId
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	withdrawer = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -210,7 +210,7 @@ func ParseOrderIndexKey(key []byte) (orderer sdk.AccAddress, pairId, orderId uin
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	orderer = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	orderId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -223,7 +223,7 @@ func ParseNumMMOrdersKey(key []byte) (ordererAddr sdk.AccAddress, pairId uint64)
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	ordererAddr = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen:])
 	return
-- 
2.43.0


From 2cb509d3fdadc3323b480fdc3fb5e974037f3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 07/11] fix: bound the withdraw fee rate and the max price
 limit ratio by one

---
 x/dex/types/params.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 140c184..e89cecf 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -270,6 +270,10 @@ func validateMaxPriceLimitRatio(i interface{}) error {
 		return fmt.Errorf("max price limit ratio must not be negative: %s", v)
 	}
 
+	if v.GTE(math.LegacyOneDec()) {
+		return fmt.Errorf("max price limit ratio must be less than 1: %s", v)
+	}
+
 	return nil
 }
 
@@ -335,6 +339,10 @@ func validateWithdrawFeeRate(i interface{}) error {
 		return fmt.Errorf("withdraw fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("withdraw fee rate must not be greater than 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 79e99c0ef64a7bf4450fd6f6bd9d5b1e1c2e1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 08/11] fix: match the same amount of buy orders as sell orders
 take

---
 x/dex/amm/match.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/x/dex/amm/match.go b/x/dex/amm/match.go
index af58cfb..4ce2690 100644
--- a/x/dex/amm/match.go
+++ b/x/dex/amm/match.go
@@ -181,8 +181,8 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 		return sdk.Int{}, false
 	}
 	quoteCoinDiff = sdk.ZeroInt()
-	distributeToTicks := func(ticks []*orderBookTick) {
-		remainingAmt := matchableAmt
+	distributeToTicks := func(ticks []*orderBookTick, amt sdk.Int) (distributedAmt sdk.Int) {
+		remainingAmt := amt
 		for _, tick := range ticks {
 			tickAmt := TotalMatchableAmount(tick.orders, matchPrice)
 			if tickAmt.LTE(remainingAmt) {
@@ -192,13 +192,18 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 					break
 				}
 			} else {
-				quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(tick, remainingAmt, matchPrice))
+				diff, tickDistributedAmt := DistributeOrderAmountToTick(tick, remainingAmt, matchPrice)
+				quoteCoinDiff = quoteCoinDiff.Add(diff)
+				remainingAmt = remainingAmt.Sub(tickDistributedAmt)
 				break
 			}
 		}
+		return amt.Sub(remainingAmt)
 	}
-	distributeToTicks(ob.buys.ticks)
-	distributeToTicks(ob.sells.ticks)
+	// Sell orders can take less than the matchable amount, since a part of it
+	// might be worth nothing at the price. Match the same amount of buy orders.
+	distributedAmt := distributeToTicks(ob.sells.ticks, matchableAmt)
+	distributeToTicks(ob.buys.ticks, distributedAmt)
 	matched = true
 	return
 }
@@ -280,17 +285,15 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 			si++
 			continue
 		}
+		// See MatchAtSinglePrice for why sell orders come first.
+		sellDiff, distributedAmt := DistributeOrderAmountToTick(sellTick, sdk.MinInt(buyTickOpenAmt, sellTickOpenAmt), p)
+		buyDiff, _ := DistributeOrderAmountToTick(buyTick, distributedAmt, p)
+		quoteCoinDiff = quoteCoinDiff.Add(sellDiff).Add(buyDiff)
 		if buyTickOpenAmt.LTE(sellTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, buyTickOpenAmt, p))
 			bi++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, sellTickOpenAmt, p))
 		}
 		if sellTickOpenAmt.LTE(buyTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, sellTickOpenAmt, p))
 			si++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, buyTickOpenAmt, p))
 		}
 		matchPrice = p
 		matched = true
@@ -302,7 +305,8 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 // at the tick.
 // Orders with higher priority(have lower batch id) get matched first,
 // then the remaining amount is distributed to the remaining orders.
-func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff sdk.Int) {
+// It returns the amount which was actually distributed as well.
+func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff, distributedAmt sdk.Int) {
 	remainingAmt := amt
 	quoteCoinDiff = sdk.ZeroInt()
 	groups := GroupOrdersByBatchId(tick.orders)
@@ -316,14 +320,16 @@ func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.Leg
 			remainingAmt = remainingAmt.Sub(openAmt)
 		} else {
 			SortOrders(group.Orders)
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToOrders(group.Orders, remainingAmt, price))
-			remainingAmt = sdk.ZeroInt()
+			diff, groupDistributedAmt := DistributeOrderAmountToOrders(group.Orders, remainingAmt, price)
+			quoteCoinDiff = quoteCoinDiff.Add(diff)
+			remainingAmt = remainingAmt.Sub(groupDistributedAmt)
+			break
 		}
 		if remainingAmt.IsZero() {
 			break
 		}
 	}
-	return
+	return quoteCoinDiff, amt.Sub(remainingAmt)
 }
 
 // DistributeOrderAmountToOrders distributes the given order amount to the orders
@@ -334,7 +340,9 @@ func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.Leg
 // to the orders again, by priority.
 // This time, the proportion is not considered and each order takes up
 // the amount as much as possible.
-func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff sdk.Int) {
+// It returns the amount which was actually distributed as well, which is less
+// than the given amount when the rest of it is worth nothing at the price.
+func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff, distributedAmt sdk.Int) {
 	totalAmt := TotalAmount(orders)
 	totalMatchedAmt := sdk.ZeroInt()
 	matchedAmtByOrder := map[Order]sdk.Int{}
@@ -393,5 +401,5 @@ func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.Legacy
 	for order, matchedAmt := range matchedAmtByOrder {
 		quoteCoinDiff = quoteCoinDiff.Add(FillOrder(order, matchedAmt, price))
 	}
-	return
+	return quoteCoinDiff, amt.Sub(remainingAmt)
 }
-- 
2.43.0


From 4ff69a65c1091844284a5b329b468fd64aef3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:52 +0000
Subject: [PATCH 09/11] fix: cancel-all-orders command without pair ids no
 longer panics

---
 x/dex/client/cli/tx.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/dex/client/cli/tx.go b/x/dex/client/cli/tx.go
index f9dd1a5..8429d9a 100644
--- a/x/dex/client/cli/tx.go
+++ b/x/dex/client/cli/tx.go
@@ -589,12 +589,14 @@ $ %s tx %s cancel-all-orders 1,3 --from mykey
 			}
 
 			var pairIds []uint64
-			for _, pairIdStr := range strings.Split(args[0], ",") {
-				pairId, err := strconv.ParseUint(pairIdStr, 10, 64)
-				if err != nil {
-					return fmt.Errorf("parse pair id: %w", err)
+			if len(args) > 0 {
+				for _, pairIdStr := range strings.Split(args[0], ",") {
+					pairId, err := strconv.ParseUint(pairIdStr, 10, 64)
+					if err != nil {
+						return fmt.Errorf("parse pair id: %w", err)
+					}
+					pairIds = append(pairIds, pairId)
 				}
-				pairIds = append(pairIds, pairId)
 			}
 
 			msg := types.NewMsgCancelAllOrders(clientCtx.GetFromAddress(), pairIds)
-- 
2.43.0


From 3bf31ed1cf2fa107f34bc6e0bfebaafac774e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 10/11] fix: deposit-request command queries the request id it
 is given

---
 x/dex/client/cli/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/dex/client/cli/query.go b/x/dex/client/cli/query.go
index 5c17dc7..4232b1e 100644
--- a/x/dex/client/cli/query.go
+++ b/x/dex/client/cli/query.go
@@ -396,7 +396,7 @@ $ %s query %s deposit-requests 1 1
 				return err
 			}
 
-			id, err := strconv.ParseUint(args[0], 10, 64)
+			id, err := strconv.ParseUint(args[1], 10, 64)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From d294a30eab0e5ebe44863aa1ec561c6a9aa5d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 11/11] fix: withdraw-request command queries the request id it
 is given

---
 x/dex/client/cli/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/dex/client/cli/query.go b/x/dex/client/cli/query.go
index 4232b1e..292c49f 100644
--- a/x/dex/client/cli/query.go
+++ b/x/dex/client/cli/query.go
@@ -501,7 +501,7 @@ $ %s query %s withdraw-requests 1 1
 				return err
 			}
 
-			id, err := strconv.ParseUint(args[0], 10, 64)
+			id, err := strconv.ParseUint(args[1], 10, 64)
 			if err != nil {
 				return err
 			}
-- 
2.43.0

