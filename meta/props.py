# Metadata of every property: the single source from which gen.py writes
# properties.jsonl, MANIFEST.json, dexlint/meta.json and the property part of
# DESIGN.md.
K = "x/dex/keeper/"
T = "x/dex/types/"
A = "x/dex/amm/"
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, how, note, assume=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, how=how, note=note, assume=list(assume)))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                   files=files, mech=mech, reason=reason))


SAMPLES = "The existing tests place a handful of fixed messages against hand-made states; they cannot cover every message, stored state and parameter setting."
HIST = "The existing tests replay a few short scripted block sequences; the guarantee is about every sequence of blocks and messages."

P("P01", "Placing an order escrows exactly what the order records",
  "Every accepted limit, market or market-making order moves exactly the offer coin recorded in the stored order from the orderer to the escrow account of the pair named in the message, and moves nothing else. The recorded coin is the price-times-amount value rounded up for a buy and the amount itself for a sell, never more than the orderer offered, and the stored order starts fully open with nothing received.",
  ["inputs", "histories"], "every order message, every stored pair and every parameter setting", SAMPLES,
  [K + "swap.go", T + "order.go", A + "util.go"],
  [("order placement handlers", K + "swap.go: LimitOrder, MarketOrder, MMOrder"), ("order constructors", T + "order.go: NewOrderForLimitOrder, NewOrderForMarketOrder, NewOrder"), ("offer amount", A + "util.go: OfferCoinAmount")],
  "All abstract paths of the three order messages, from stateless validation through the handler to a successful return, are enumerated over the SSA form with value numbering; on each path the set of bank movements, the stored order record and the escrowed-amount term are compared with the required terms, and every other entry point is checked not to create orders.",
  "all paths of the three handlers and all entry points that could create an order")

P("P02", "Only orders that satisfy the pair's rules are accepted",
  "An order is accepted only if its pair exists, its lifespan is within the limit, the orderer can spend the offered coin, its denominations match its direction in the pair, its price is within the price limits around the last price (or the tick range when there is none), and amount and value are not below the minimum. The stored price is the message price moved to a tick in the orderer's favour (down for buys, up for sells), market orders use the price limit, and the order enters the pair's current batch and expires at block time plus lifespan.",
  ["inputs", "configurations"], "every order message, stored pair and parameter setting", SAMPLES,
  [K + "swap.go", T + "order.go"],
  [("order validation", K + "swap.go: ValidateMsgLimitOrder, ValidateMsgMarketOrder, ValidateMsgMMOrder"), ("price limits", K + "swap.go: PriceLimits")],
  "On every successful path of each order message the accumulated branch facts must entail each acceptance condition, and the stored price, batch and expiry terms must be the required ones.",
  "entailment of every acceptance condition on every accepting path")

P("P03", "An ended order returns its whole remaining coin exactly once",
  "Whenever an order becomes completed, cancelled or expired, its whole remaining offer coin is paid from the pair's escrow account to the orderer, in the same step, unless nothing remains. An order that has already ended is never ended again.",
  ["histories", "inputs"], "every message and block of every history", HIST,
  [K + "swap.go", K + "batch.go"],
  [("order termination", K + "swap.go: FinishOrder"), ("callers", K + "swap.go: CancelOrder, CancelAllOrders, ApplyMatchResult; " + K + "batch.go: ExecuteRequests")],
  "Every store write of an order with a terminal status, on every path of every message and block entry point, must be derived from a stored order whose status is known not to be terminal there, and the path must contain exactly one transfer of the written remaining coin from that pair's escrow to that orderer (or the fact that nothing remains).",
  "every path of every entry point that writes an ended order")

P("P04", "Cancellation only by the owner and only after the order's batch",
  "A cancellation succeeds only for an existing order placed by the sender, and only once the batch in which it was placed is over. Cancel-all ends all of the sender's live orders from earlier batches in the selected pairs (in all pairs if none is named) and no other, and nothing but a cancellation request makes an order cancelled.",
  ["inputs", "histories"], "every cancellation message against every stored state", SAMPLES,
  [K + "swap.go"],
  [("cancellation handlers", K + "swap.go: ValidateMsgCancelOrder, CancelOrder, CancelAllOrders")],
  "Every path that stores a cancelled order must carry the facts that the order exists, belongs to the sender (by comparison or because it was found through the sender's own index range), is not of the current batch of its pair and lies in a selected pair; every round of cancel-all's walk that ends no order must carry a fact that excludes the order it meets; no other entry point may store a cancelled order.",
  "all paths of both cancellation messages and all writers of orders")

P("P05", "Orders follow their life cycle and keep their terms",
  "A stored order starts as not executed, becomes not matched, partially matched, completed, cancelled or expired only along the allowed transitions and for the stated reason, and never leaves a terminal state. Its owner, pair, direction, price, amount, offer coin, batch and expiration never change after placement, and its open, remaining and received amounts change only by matching.",
  ["histories"], "every sequence of messages and blocks", HIST,
  [K + "swap.go", K + "batch.go", T + "order.go"],
  [("status transitions", K + "swap.go: ExecuteMatching, ApplyMatchResult, FinishOrder"), ("status setters", T + "order.go: SetStatus")],
  "Typestate analysis over every order write on every path of all entry points: the written status against the known facts about the old one, and field-by-field equality of the immutable terms.",
  "every order write on every path")

P("P06", "Live orders reach the book, expired ones leave it, ended ones are cleaned up",
  "At the end of a batch every live, unexpired order of a pair enters that pair's order book with exactly its stored remaining terms, and nothing else does. Orders that have expired or become too small to trade are then ended, and at the next block start exactly the ended orders are deleted together with their owner index entry.",
  ["histories", "schedules"], "every set of stored orders and every block", HIST,
  [K + "swap.go", K + "batch.go", T + "orderbook.go"],
  [("book construction", K + "swap.go: ExecuteMatching"), ("expiration sweep", K + "batch.go: ExecuteRequests"), ("clean-up", K + "batch.go: DeleteOutdatedRequests")],
  "Loop-body paths over the scans of stored orders: for each status and expiry case the required effect (book entry with the stored terms, expiry, deletion of both keys) must be present and the others absent; scans must not stop early and must happen in the required order.",
  "every body path of the three scans")

P("P07", "Deposit requests are escrowed, then settled or refunded in full",
  "An accepted deposit moves exactly the deposited coins into escrow and stores one pending request; it is accepted only for an existing enabled pool, coins of its pair (both of them for a basic pool) and reserves that stay within the maximum. At the end of the batch every pending request is settled exactly once: on success the accepted coins go to the pool, exactly the computed pool coin is minted to the depositor and the rest is refunded; otherwise everything is refunded and nothing is minted.",
  ["inputs", "histories", "schedules"], "every deposit message, every pool state and every order in which requests of one batch are processed", HIST,
  [K + "pool.go", K + "batch.go", T + "request.go"],
  [("deposit handler", K + "pool.go: ValidateMsgDeposit, Deposit"), ("settlement", K + "pool.go: ExecuteDepositRequest, FinishDepositRequest"), ("batch loop", K + "batch.go: ExecuteRequests, DeleteOutdatedRequests")],
  "The handler paths and every body path of the settlement scan are enumerated; per path the exact multiset of transfers, the mint, the recorded result and the arguments of the deposit calculation (reserves and supply read freshly for this request) must be the required ones, failures must have one of the allowed reasons, and the clean-up scan deletes exactly the settled requests with their index entries.",
  "all paths of the handler, the settlement scan and the clean-up scan")

P("P08", "Withdraw requests are escrowed, then settled or refunded in full",
  "An accepted withdrawal moves exactly the offered pool coin into escrow and stores one pending request; it is accepted only for an existing enabled pool and that pool's own coin. At the end of the batch every pending request is settled exactly once: on success the computed reserve coins are paid to the withdrawer and exactly the escrowed pool coin is burned; otherwise the pool coin is refunded and nothing is burned.",
  ["inputs", "histories", "schedules"], "every withdraw message, every pool state and every order in which requests of one batch are processed", HIST,
  [K + "pool.go", K + "batch.go", T + "request.go"],
  [("withdraw handler", K + "pool.go: ValidateMsgWithdraw, Withdraw"), ("settlement", K + "pool.go: ExecuteWithdrawRequest, FinishWithdrawRequest"), ("batch loop", K + "batch.go: ExecuteRequests, DeleteOutdatedRequests")],
  "As for deposits: exact transfers, burn, recorded result and calculation arguments on every path of the handler and of the settlement scan.",
  "all paths of the handler, the settlement scan and the clean-up scan")

P("P09", "Deposits never mint more pool coin than their proportional share",
  "The pool coin minted for a deposit is an integer not above supply * offered / reserve for each side with a reserve. The amount taken of each side is reserve * minted / supply for the coin actually minted, rounded up once (so the pool never gets less than the share it issues, and never takes more than was offered).",
  ["inputs"], "every pool state and offered amount", "the rounding error depends on the digits of very large amounts, which sampled values rarely hit; the tests in the repository use small round numbers",
  [A + "pool.go"],
  [("deposit calculation", A + "pool.go: Deposit")],
  "Every path of the calculation is analysed in a rounding domain: each returned amount is described by the set of ideal rational expressions whose minimum it approximates, the direction of the accumulated rounding error, and whether it is the exact integer rounding of the ideal; the required ideal, direction and tightness must come out.",
  "all return paths of amm.Deposit, for all integer inputs")

P("P10", "Withdrawals never pay more than the proportional share",
  "Redeeming the whole pool coin supply pays out the whole reserves. Redeeming less pays at most reserve * redeemed / supply * (1 - fee rate) of each side, rounded down.",
  ["inputs", "configurations"], "every pool state, redeemed amount and fee rate", "the rounding error depends on the digits of the amounts, which sampled values rarely hit",
  [A + "pool.go"],
  [("withdrawal calculation", A + "pool.go: Withdraw")],
  "Every return path of the calculation is analysed in the rounding domain; the ideal expression and the rounding direction of both payouts must be the required ones.",
  "all return paths of amm.Withdraw")

P("P11", "Pool coins are minted and burned only for liquidity that moves",
  "A pool's coin comes into existence only when the pool is created or a deposit into it executes, and is destroyed only when a withdrawal from it executes; each time it is that pool's own denomination, minted coins go straight to the depositor or creator, burned coins are the ones the withdrawer escrowed, and nothing else changes any coin's supply.",
  ["inputs", "histories"], "every message, block and stored state", HIST,
  [K + "pool.go", K + "batch.go", T + "pool.go"],
  [("minting", K + "pool.go: CreatePool, CreateRangedPool, ExecuteDepositRequest"), ("burning", K + "pool.go: ExecuteWithdrawRequest"), ("denominations", T + "pool.go: PoolCoinDenom")],
  "Every mint and burn event on every path of every message, block and genesis entry point must lie in a pool creation, an executed deposit or an executed withdrawal, name the pool's own denomination, and be paired with exactly one transfer of the same coins out of or into the module account; the module account must not move coins otherwise.",
  "every supply change and every module-account transfer on every path of every entry point")

P("P12", "Exhausted pools are disabled for good and only working pools act",
  "A pool is disabled exactly when it is found depleted (no supply, or reserves that cannot support a price) or when its whole supply has been withdrawn; it is never enabled again. Before matching, every pool of the pair is examined: depleted ones are disabled, and exactly the enabled, non-depleted ones take part, judged and represented by their own reserves, supply and price range. Identity, type, pair, denomination and price range of a pool never change.",
  ["inputs", "histories"], "every set of pools and reserves and every history of blocks", HIST,
  [K + "swap.go", K + "pool.go", T + "pool.go", A + "pool.go"],
  [("scan before matching", K + "swap.go: ExecuteMatching"), ("disabling", K + "pool.go: MarkPoolAsDisabled and its callers"), ("depletion", A + "pool.go: IsDepleted")],
  "Each path through the body of the scan over a pair's pools, each transition of the list of pools built by it (loop-carried variable), each pool record written and each settled withdrawal is compared with the rule; the depletion tests are evaluated over all their paths.",
  "every path of the pool scan, of every pool record write and of both depletion tests")

P("P13", "Pools are created only under the pair's rules and fully funded",
  "A pool is created only for an existing pair, from coins of that pair, with at least the minimum initial deposit, while the pair has fewer working pools than the limit, and, for a basic pool, no other working basic pool. Ranged pools need on-tick minimum, maximum and initial prices inside the allowed range. The creator pays exactly the deposit into the pool's own reserve address plus the creation fee, and receives the initial supply (at least the minimum); the stored pool records these facts.",
  ["inputs", "configurations", "histories"], "every creation message, stored state and parameter setting", SAMPLES,
  [K + "pool.go", T + "pool.go", A + "pool.go"],
  [("creation handlers", K + "pool.go: ValidateMsgCreatePool, CreatePool, ValidateMsgCreateRangedPool, CreateRangedPool"), ("amm constructors", A + "pool.go: CreateBasicPool, CreateRangedPool, ValidateRangedPoolParams")],
  "The facts of every successful path of both messages must entail each condition; the count of working pools is verified as a loop-carried variable; the stored record and the complete set of transfers are compared with the required terms; the amm constructors are analysed separately.",
  "all successful paths of both creation messages and of the amm constructors")

P("P14", "Creation fees are charged once, in full, to the fee collector",
  "Creating a pair or a pool charges the creator exactly the configured creation fee once, paid to the configured fee collector, and creating a pair moves no other coins. Nothing else pays into the fee collector.",
  ["inputs", "configurations"], "every creation message and parameter setting", SAMPLES,
  [K + "pair.go", K + "pool.go"],
  [("pair fee", K + "pair.go: CreatePair"), ("pool fee", K + "pool.go: CreatePool, CreateRangedPool")],
  "All transfers to the fee collector on every path of every entry point are compared with the fee parameter of the message kind, and counted.",
  "all transfers on all paths of all entry points")

P("P22", "Identifiers are handed out once and never reused",
  "Pairs and pools are numbered by one global counter each; orders are numbered by a counter of their pair, deposit and withdraw requests by counters of their pool. Every new record gets the next number of its counter, the counter is stored with exactly that number in the same step, counters never go down or change otherwise, and the records holding them are never deleted.",
  ["histories", "inputs"], "every sequence of messages and blocks", HIST,
  [K + "store.go", K + "pair.go", K + "pool.go", K + "swap.go"],
  [("pair and pool ids", K + "pair.go: getNextPairIdWithUpdate; " + K + "pool.go: getNextPoolIdWithUpdate"), ("order ids", K + "swap.go: getNextOrderIdWithUpdate"), ("request ids", K + "pool.go: getNextDepositRequestIdWithUpdate, getNextWithdrawRequestIdWithUpdate")],
  "On every path of every entry point each new record is matched with exactly one counter write of the previously stored value plus one, symbolically; every other write of a counter-holding record must keep the counter, and no deletion may reach it.",
  "every record creation, counter write and deletion on every path of every entry point")

P("P23", "One pair per ordered denominations, with its own escrow",
  "At most one pair exists per ordered base and quote denomination, which are valid and different. A pair starts without a price, in batch one, with an escrow account derived from its id alone and distinct from every pool reserve and module-wide account. Its id, denominations and escrow account never change and it is never deleted.",
  ["inputs", "histories"], "every pair creation and every later message and block", HIST,
  [K + "pair.go", T + "pair.go"],
  [("pair creation", K + "pair.go: CreatePair"), ("pair record", T + "pair.go: NewPair, PairEscrowAddress")],
  "Every write and deletion of pairs and of their lookup entries, on every path of every entry point, is compared with the rule; the absence of an existing pair must be an established fact on the creating path; address derivations are evaluated symbolically.",
  "every pair write, lookup write and deletion on every path")

P("P24", "Index entries always agree with the records",
  "Every stored record sits under the key its own fields determine. A new pair, pool, request or order gets all of its index entries, with the right id, in the same step; index entries are written only together with their record, never point to a changed field, and are removed exactly when the record is removed.",
  ["histories", "inputs"], "every sequence of messages, blocks and genesis imports", HIST,
  [K + "store.go", T + "keys.go"],
  [("record and index writes", K + "store.go: SetPair, SetPairIndex, SetPool, SetPoolByReserveIndex, SetDepositRequestIndex, SetWithdrawRequestIndex, SetOrderIndex"), ("deletions", K + "store.go: DeleteDepositRequest, DeleteWithdrawRequest, DeleteOrder, DeleteOrderIndex")],
  "Store keys are evaluated symbolically down to their bytes; on every path the index writes and deletions must be exactly those that the fields of the written or deleted record determine.",
  "every store write and deletion on every path of every entry point")

P("P25", "Store keys are unambiguous and parsed back exactly",
  "Each kind of entry has its own prefix, and its key consists of fixed-width numbers, length-prefixed strings and addresses only, so keys of different entries never coincide and an iteration over a prefix never visits foreign entries. Parsing a key returns exactly the components it was built from, for all component lengths.",
  ["inputs"], "all denominations, addresses and identifiers", "a collision or a wrong offset needs components of particular lengths, such as a length byte that wraps around, which the tests in the repository do not use",
  [T + "keys.go", K + "store.go"],
  [("key builders", T + "keys.go: GetPairKey, GetPairIndexKey, GetOrderIndexKey and the other builders"), ("key parsers", T + "keys.go: ParsePairsByDenomsIndexKey, ParsePoolsByPairIndexKey, ParseOrderIndexKey, ParseNumMMOrdersKey and others")],
  "The layout of every key used on any path and of every key builder is derived symbolically and compared with the injective layout of its kind; every parser is evaluated symbolically and must return the slices of that layout; offset arithmetic must not use narrow integers.",
  "every key on every path of every entry point, every builder and every parser")

P("P26", "Genesis export and import carry the complete state",
  "Exporting writes nothing and contains the parameters, both id counters and every stored pair, pool, request, order and market-making order count, unchanged. Importing stores every one of them unchanged under its key, moves no coins and deletes nothing. Every kind of entry the chain ever writes is exported or is an index that the import rebuilds.",
  ["histories", "inputs"], "every reachable state that is exported, and every imported state", "the existing tests export a few small states; a missing list, field or early stop shows only with particular contents",
  [K + "genesis.go", K + "store.go", "x/dex/module/genesis.go", "x/dex/module/module.go"],
  [("export", K + "genesis.go: ExportGenesis"), ("import", K + "genesis.go: InitGenesis"), ("module entry points", "x/dex/module/module.go: InitGenesis, ExportGenesis")],
  "The exported structure is evaluated symbolically: each list must be the loop-carried accumulation of exactly the decoded entries of a complete forward scan of its prefix. The import must visit every element of every list (index starts at the first, advances by one, runs to the end) and store it unchanged. Prefixes written by the live chain must be covered by both.",
  "the exported value on every path, every list loop of the import, and all store prefixes written anywhere")

P("P27", "Genesis validation refuses exactly the malformed states",
  "A genesis state is accepted only if its ids are unique and within the last ids, references point to pairs and pools in it, denominations match their pair or pool, addresses, coins, statuses, directions and amounts are valid and no order is from a future batch. It is rejected only for a listed reason, so states the chain can reach are accepted. The same validation runs before start and at import.",
  ["inputs"], "every genesis state", "the tests try about thirty single mutations of one good state; a check that skips some elements or combinations escapes them",
  [T + "genesis.go", T + "request.go", T + "pair.go", T + "pool.go", K + "genesis.go"],
  [("validation", T + "genesis.go: GenesisState.Validate"), ("record validation", T + "request.go, " + T + "pair.go, " + T + "pool.go: Validate"), ("use", K + "genesis.go: InitGenesis; x/dex/module/module.go: ValidateGenesis")],
  "For every list some complete loop must establish each condition on every surviving body path (facts of the path entail it), with uniqueness shown by the lookup-then-insert pattern on a map; every rejecting path must contradict one of the listed conditions.",
  "all loops over all genesis lists and all 160 rejecting paths of the validation")

P("P28", "Parameters change only by the authority and stay valid",
  "After genesis the parameters change only through a parameter update sent by the module's authority, exactly to the values in the message, with no other effect. The authority is the governance account or the one in the module's configuration. A value is accepted only if it is valid: positive batch size and market-making limits, valid addresses and fees, rates between 0 and 1 where a larger one would break matching or withdrawal; valid values are not refused.",
  ["inputs", "configurations"], "every parameter update and every parameter value", "the tests update the parameters a few times and try a few invalid values per parameter",
  [K + "msg_server.go", K + "keeper.go", K + "params.go", T + "params.go", "x/dex/module/module.go"],
  [("update handler", K + "msg_server.go: UpdateParams"), ("authority", K + "keeper.go: NewKeeper, GetAuthority; x/dex/module/module.go: ProvideModule"), ("validators", T + "params.go: Params.Validate, validate functions")],
  "Every parameter write on every path of every entry point must be the update message's value under the fact that the sender equals the keeper's authority; construction of the keeper is evaluated symbolically up to the module's provider; every accepting and rejecting path of every validator is compared with the table of valid values.",
  "all parameter writes, all constructor paths and all paths of all validators")

P("P29", "Each parameter is stored and read under its own key",
  "Every parameter has exactly one entry in the parameter table, with its own key, its own field and its own validator; every reader and writer of a single parameter uses an existing key with the right type, and each getter returns the parameter it is named after. The defaults are valid.",
  ["configurations"], "every parameter and every combination of parameter values", "tests run with the default parameters, under which mixed-up parameters of equal value look right",
  [K + "params.go", T + "params.go"],
  [("parameter table", T + "params.go: ParamSetPairs, ParamKeyTable"), ("getters", K + "params.go"), ("defaults", T + "params.go: DefaultParams")],
  "The parameter table is evaluated to its constant entries and compared with the fields; every access to the parameter store in the module is located and its key and type compared with the table; getters are evaluated symbolically.",
  "all table entries, all accesses to the parameter store, all getters")

SAMPLEBOOK = "the tests match a few hand-made books; the guarantee is about every book, including ones in which rounding makes single orders worth nothing"

P("P16", "Filling an order moves exactly what it matched and nothing more",
  "Filling an order by an amount reduces its open amount by exactly that amount, charges a buyer price*amount rounded up and a seller the amount itself, and pays a buyer the amount and a seller price*amount rounded down; the difference returned is what the buyer paid above, or the seller received below, in quote coins. No order is filled beyond its matchable amount, which never exceeds its open amount nor what its remaining offer coin can pay for at the price, and an order of either direction is counted as matched only if it was filled.",
  ["inputs"], "every order, price and amount", SAMPLEBOOK,
  [A + "match.go", A + "order.go", T + "order.go", T + "amm.go"],
  [("filling", A + "match.go: FillOrder, FulfillOrder, FulfillOrders"), ("matchable amount", A + "order.go: MatchableAmount, TotalMatchableAmount"), ("order state", A + "order.go: BaseOrder"), ("orders built from the store and from pools", T + "order.go: NewUserOrder, NewPoolOrder")],
  "All paths of the fill and total functions are enumerated; the values set on the order are compared with the required terms in a rounding domain (ideal expression, direction, integrality), the accumulated totals as loop-carried sums, and every method set implementing amm.Order is checked field by field.",
  "all paths of the fill functions and all implementations of the order interface")

P("P18", "Matching conserves coins: both sides match the same amount",
  "In every matching step buy orders match exactly as many base coins as sell orders do, at the same price: amounts are handed out to whole entries while they fit and to at most one entry in part, never beyond what an entry has, and what could not be handed out (because it would be worth nothing) is reported and not taken from the other side. The quote coin difference returned by matching is the exact sum over all fills of what buyers paid less what sellers received.",
  ["inputs"], "every order book, price and last price", SAMPLEBOOK,
  [A + "match.go"],
  [("single price matching", A + "match.go: FindMatchableAmountAtSinglePrice, MatchAtSinglePrice"), ("two-stage matching", A + "match.go: Match"), ("distribution within a tick and a group", A + "match.go: DistributeOrderAmountToTick, DistributeOrderAmountToOrders")],
  "Each loop is described by what its iterations add to loop-carried values (an accounting ledger over the event tree), so sums over fills are compared symbolically with the values returned; distribution loops are checked as a discipline (in order, fits before filled whole, one partial, stops only when nothing is left), and per-order amounts against their matchable amount and their proportional share.",
  "all paths of the six matching functions, loops by their symbolic transition")

P("P15", "Matched orders are settled in full and to the right account",
  "What an order paid and received in a batch moves between the pair's escrow and exactly the account it belongs to: an orderer's order pays from what is locked in escrow, gets what it received, and its stored record moves by the same amounts; a pool pays from its own reserve before anyone is paid and gets what its orders received. The quote coin difference goes to the dust collector. Every matched order of the book is settled once; nothing else moves.",
  ["inputs", "histories"], "every order book, every pool and every batch", "the tests check balances after a few batches with known orders; a settlement that skips or misdirects one kind of order shows only with particular books",
  [K + "swap.go", T + "util.go", A + "orderbook.go"],
  [("settlement", K + "swap.go: ApplyMatchResult"), ("bulk transfers", T + "util.go: BulkSendCoinsOperation"), ("orders of a book", A + "orderbook.go: Orders")],
  "The loops over the orders of the book are enumerated body by body; transfers queued and run are compared with the paid and received coins of the order behind the interface value, record updates with the same quantities; the bulk transfer's queue, aggregation and run are analysed as map and list accumulation; the list of orders must be a complete accumulation over both sides.",
  "all settlement loop bodies of a batch and all paths of the bulk transfer")

P("P21", "Batches run every batch size blocks, for every pair, exactly once",
  "Orders match only at the end of blocks whose height is a multiple of the batch size: then for every pair all its open orders and all its active pools go into one book, which is matched once, from the last price if there is one, else at a found first price; pools order within the price limits. The pair's batch id grows by one, its last price becomes the match price if orders matched and stays otherwise, and deposits and withdrawals execute afterwards. Otherwise nothing happens.",
  ["histories", "inputs", "configurations"], "every block height, batch size and pair", "the tests run a few blocks with batch size one and one or two pairs",
  ["x/dex/module/abci.go", K + "batch.go", K + "swap.go"],
  [("batch", K + "batch.go: ExecuteRequests"), ("matching of a pair", K + "swap.go: ExecuteMatching, Match"), ("block end", "x/dex/module/abci.go: EndBlocker")],
  "The end of block is evaluated symbolically: the steps taken under the batch condition and their order, the absence of any effect otherwise, and per pair the book that is built (every added order, every pool loop), the arguments of matching and the stored pair record.",
  "every path of the end of block and of the per-pair batch")

P("P19", "Orders match only at prices within their limit",
  "An order enters the book on the side of its direction and at its own price, only if it can match there. Whenever orders match, at the single price or tick by tick, buy orders match at their limit or lower and sell orders at their limit or higher, and both sides match at the same price. The match price reported is a price that orders matched at.",
  ["inputs"], "every order book and every last price", SAMPLEBOOK,
  [A + "match.go", A + "orderbook.go"],
  [("entering the book", A + "orderbook.go: OrderBook.AddOrder, orderBookTicks.addOrder, findPrice"), ("single price", A + "match.go: FindMatchableAmountAtSinglePrice"), ("tick by tick", A + "match.go: Match")],
  "Path facts: every order counted at a single price and every pair of ticks matched must carry the comparison of its limit with the price; the list of ticks is shown to stay sorted by the comparisons around the place of insertion, so amounts taken from the best tick on never reach ticks outside the limit; writes to the parts of a book are confined to those functions by a scan of all stores.",
  "all paths of the order book and matching functions and all stores to a book's parts")

P("P20", "Better prices match first, then earlier batches, then larger orders",
  "Among orders of one side those with a better price match first. Within a price, orders of earlier batches match in full before later ones get anything, and pools' orders, which belong to the current batch, come last. An amount that does not suffice for a batch is shared in proportion, and what is left goes in order of priority: larger orders first, then users before pools, then lower ids.",
  ["inputs"], "every order book and every amount", SAMPLEBOOK,
  [A + "match.go", A + "orderbook.go", A + "util.go", T + "order.go", A + "order.go"],
  [("price order", A + "orderbook.go: orderBookTicks.addOrder"), ("batches", A + "util.go: GroupOrdersByBatchId"), ("priority", A + "util.go: SortOrders; " + T + "order.go: HasPriority"), ("serving", A + "match.go: DistributeOrderAmountToTick, DistributeOrderAmountToOrders")],
  "Sorted insertion is decided from the comparisons that hold around the place of insertion (the result of the binary search is modelled by its predicate); groups are shown to be keyed by batch; the comparison handed to the sort and all implementations of HasPriority are evaluated symbolically; serving is checked as an in-order distribution.",
  "all paths of the grouping, sorting and distribution functions and all implementations of the order interface")

P("P17", "A pool's orders never exceed its reserves and favour the pool",
  "Down to a price a pool buys, and up to a price it sells, the amount that moves its own price there, clamped to the prices it can have, rounded down in its favour and never worth more than its reserve; it offers nothing at prices worse for it than its own. Its orders lie within the price range asked for, start at the end of the range or its price, have at least the minimum amount, and each is accounted for (quote paid rounded up, received rounded down) on a copy of the pool before the next is made, so all orders of a side together are covered.",
  ["inputs"], "every pool, price range and tick precision", "tests compare a few pools' orders with fixed lists; an amount that exceeds the reserve by one or a wrong clamp shows only at particular balances and prices",
  [A + "pool.go", A + "util.go", T + "pool.go", T + "order.go"],
  [("amounts", A + "pool.go: BuyAmountOver, SellAmountUnder, BuyAmountTo, SellAmountTo of both kinds of pools"), ("orders", A + "pool.go: PoolBuyOrders, PoolSellOrders, PoolOrders; " + T + "pool.go: PoolOrderer.Order"), ("balances and copies", A + "pool.go: Balances, SetBalances, Clone, NewBasicPool, NewRangedPool")],
  "Every path of the amount functions is enumerated: the value returned must evaluate, in the rounding domain, to the ideal amount for the pool kind or a proven cap, with the sign and comparison facts that justify zero and the maximum, and a sign analysis bounds its worth by the reserve. The order makers are checked as a protocol over calls on the copied pool (amount, order, balances, in this order) with the loop's tick as a monotone loop-carried value; the gap ratio is bounded by interval analysis.",
  "all paths of the amount functions of every type implementing the pool interface, and of the order makers",
  "How close the square root approximation comes is numerical and not decided.")

P("P30", "The count of market making orders is right and within its limit",
  "An order made by a market making message, and only such an order, is of the market making type and keeps that type. For every orderer and pair the stored count goes up by one when such an order is made, which needs the count to be below the limit in the parameters, and down by one, dropped at zero, when one ends, however it ends (completed, cancelled, expired); nothing else changes it.",
  ["histories", "inputs"], "every history of market making orders", "the tests make and cancel a few orders; a count that drifts on one way of ending shows only after such a history, and then blocks or admits orders for good",
  [K + "swap.go", K + "store.go", K + "batch.go"],
  [("making an order", K + "swap.go: MMOrder"), ("ending an order", K + "swap.go: FinishOrder"), ("count", K + "store.go: SetNumMMOrders, DeleteNumMMOrders")],
  "On every path of every message and of block begin and end, changes of the count are matched one to one with order records created and ended on the same path, by key (orderer and pair of the order) and by value relative to what the store had under the key before the write.",
  "all paths of all messages and of the block begin and end, including loop bodies")

P("P31", "State changes are determinate: every node computes the same",
  "What block begin and end, messages, genesis import and export and queries do depends only on the request, the block and the stored state: nothing reachable from them reads a clock, random numbers, the environment or other goroutines into state, keeps state outside of the store, computes with floating point numbers or prints addresses, and wherever a map is walked the outcome is the same for every order of its keys.",
  ["schedules", "inputs"], "every block on every node", "a unit test is one run on one machine; a difference between nodes halts the chain and never shows within one process",
  ["x/dex/", "types/"],
  [("block begin and end", "x/dex/module/abci.go"), ("messages", K + "msg_server.go"), ("matching", A), ("bulk transfers and groups", T + "util.go; " + A + "util.go")],
  "A reachability analysis over the type-checked program (interface calls resolved to all implementations) collects all repository functions the entries can run; every instruction of those is checked against sources of indeterminacy, writes are traced to package variables, and each map range must commute: accumulate by commutative operations, act on the entry's own key, or collect into a list that is sorted before it is used.",
  "every instruction of every reachable function of the repository; libraries only by their package")

P("P32", "A step that fails fails the whole: no error is swallowed",
  "When any step of a message, of genesis import or of the begin or end of a block fails - moving, minting or burning coins, a bulk transfer, matching, computing a pool - the whole message, genesis or block fails with it: it never reports success or carries on with the change half made. Panics are recovered from only around computations, never around anything that changes the store or moves coins.",
  ["inputs", "histories"], "every failing step on every path", "unit tests use accounts that can pay and amounts that do not overflow, so almost no step fails in them; a dropped error shows only as a half-made change when one does",
  ["x/dex/", "types/utils.go"],
  [("messages", K + "msg_server.go"), ("pools and requests", K + "pool.go"), ("orders and settlement", K + "swap.go"), ("batch", K + "batch.go"), ("recovery", "types/utils.go: SafeMath; " + A + "pool.go")],
  "On every path that ends in success each effect that can fail must be followed by the fact that its error is nil, and no fact may say that an error was seen; independently, no call in reachable code may drop its error unless the callee, with the callbacks passed on, is shown to return none. Functions that defer a recover are found, and everything that can run under them must be free of store writes and coin movements.",
  "every fallible effect on every path of all messages, genesis import, block begin and end; every call with an error result in reachable code")

P("P34", "Queries change nothing and answer with what is stored",
  "A query never changes the state. A query for one pair, pool, request, order or count answers with exactly the stored record that was asked for and refuses when there is none, as every query refuses a malformed request (an empty one, one without the identifier it needs, an address that is none, an order book without a number of levels or naming a pair or price unit twice); a list query holds exactly the stored records that match the request (denoms, pair, disabled flag, orderer), each once, on the page asked for; a pool is shown with its own balances, coin supply and, unless disabled, its price; the order book of a pair is built from all its live orders and all its enabled pools, and is shown after matching in the price units asked for, or in the powers 0, 1 and 2.",
  ["inputs", "histories"], "every request, page and stored state", "unit tests query a handful of records that are all in the expected state, first page only",
  ["x/dex/keeper/", "x/dex/types/"],
  [("queries", K + "grpc_query.go"), ("pool response", T + "util.go: NewPoolResponse"), ("keys and indexes", T + "keys.go"), ("scans", K + "store.go")],
  "Each method of the query server is run symbolically like a message. No event on any of its paths may write. A successful answer must be the decoded record under the key the request names, with the fact that something is stored there; a refusal must rest on a fact about the request or on a missing record. The SDK's pagination is replaced by a small model (iterate the store that is passed, call the filter for each entry, let an unknown decide whether the entry is on the page): in the loop the filter's answer must agree, case by case, with a specification of the match, and the record is appended exactly when it matches and is on the page. For order books, the scans that fill the book must run to the end, put in an order exactly when its status is live and a pool exactly when it is enabled, made of its own reserves the right way round.",
  "all 16 query handlers, all paths; pagination itself (which entries are on which page, the next key) and how book prices are grouped for display are not decided")

P("P35", "The registered invariants report exactly the broken states",
  "The module registers five invariants with the crisis module, each under its own name. Over every state: the deposit escrow invariant is broken exactly when the global escrow does not cover the coins of all requests that wait for execution, the pool coin one likewise for withdrawals, the offer coin one exactly when some pair's escrow does not cover the remaining offers of its live orders, the pool status one exactly when some enabled pool has no pool coins, the order count one exactly when some stored count differs from the live market making orders of that owner and pair. Checking them changes nothing.",
  ["inputs", "histories"], "every stored state", "unit tests break an invariant or two by hand",
  [K + "invariants.go", "x/dex/module/module.go"],
  [("registration", "x/dex/module/module.go: RegisterInvariants"), ("invariants", K + "invariants.go"), ("scans", K + "store.go")],
  "A stand-in registry evaluates, symbolically, the invariant that the module registers under each name. The loops must run over the whole store prefix of the records; on every path through a loop body the sum must take the record's coins exactly when the facts say that it is live, and the verdict must be raised exactly when the facts say that the record is wrong; the final comparison must be of that sum and the spendable balance of the right account. For counts, every live market making order must raise the entry for its owner and pair by one, and every stored count must be compared with the entry for the owner and pair in its key.",
  "all five invariants on all paths; a stored count that is missing altogether is not looked for by the invariant, and the property does not ask for it; the texts of the reports are not followed")

P("P37", "Batched work is paid for with extra gas when it is asked for",
  "A transaction that makes a deposit request, a withdraw request or an order pays the extra gas set for it, exactly once for each and from its own gas meter, whatever the type of the order. No other extra gas is charged, none is given back, and the work at the begin and end of blocks charges none.",
  ["inputs"], "every message and stored state", "unit tests run with an infinite gas meter and never look at it",
  [K + "pool.go", K + "swap.go"],
  [("deposits, withdrawals", K + "pool.go: Deposit, Withdraw"), ("orders", K + "swap.go: LimitOrder, MarketOrder, MMOrder")],
  "On every path of every message the number of records made (writes of a new request or order) must equal the number of times the gas meter of the transaction consumes exactly the parameter for that kind of record; any other use of the meter in the module is reported.",
  "every path of every message, genesis import, block begin and end; what the SDK itself charges is not part of it")

P("P43", "Each command sends what its usage text says, of what it was given",
  "Each transaction and query command of the module's command line client sends exactly one message or query, of the kind its name says, whose fields are the arguments in the places its usage text names, the flags it documents (page, denoms, pair, disabled, number of ticks, lifespan) and, for messages, the address of the sender. A number, coin, price, amount, direction or list of ids that cannot be read is refused with an error and nothing is sent; nothing else is refused. The result of sending, or the reply, is what the user gets. No combination of arguments the usage text allows makes a command panic, and all commands are reachable from the two root commands.",
  ["inputs"], "every list of arguments and every setting of the flags", "there are no tests of the command line client",
  ["x/dex/client/cli/tx.go", "x/dex/client/cli/query.go", "x/dex/client/cli/flags.go", "x/dex/client/cli/util.go", T + "msgs.go", T + "query.pb.go"],
  [("commands", "x/dex/client/cli/tx.go: GetTxCmd; query.go: GetQueryCmd"), ("flags", "x/dex/client/cli/flags.go"), ("helpers", "x/dex/client/cli/util.go: parseOrderDirection, excConditions"), ("messages", T + "msgs.go: NewMsg…")],
  "The root constructors are run symbolically; that gives each command's usage text, argument count, flags and function. The function is then run on unknown arguments. On every path that sends, the message must be of the right type and each field must be, by the path's facts, the reading of the argument whose place the usage text names or of the flag; on every path that does not, a fact must say that some input is malformed, and an error must be returned. Each argument read must be within the least number accepted or guarded; each flag read must be defined with the same kind.",
  "all paths of all 22 commands; parsing itself is the standard library's and the SDK's, and the default of a flag is not decided. The package is not hooked into the application's command tree at present (the module uses autocli)")

P("P36", "The application runs the module, with its keeper and its authority",
  "The application contains the module exactly once: in the order of what begins a block, of what ends one and of what imports genesis; its account may mint and burn and not stake; its invariants are registered with the crisis module. Messages and queries are served by the module's own keeper, the one the application hands out, made of the codec, store, accounts and bank the application provides; every method of the two services is handled by the server's method of that name, and every message can be decoded. The authority over parameters is the governance account unless the configuration names another, and the application's names none. Genesis import gets what was decoded, export is encoded as exported, the default is the module's, and validation refuses what does not decode and otherwise says what the module's validation says.",
  ["histories"], "every block, message, query and genesis of a chain that runs this application", "the test suites call the module's functions directly and do not notice a module that is never run",
  ["app/app_config.go", "app/app.go", "x/dex/module/module.go", K + "keeper.go", T + "codec.go"],
  [("configuration", "app/app_config.go: appConfig"), ("invariants, keeper", "app/app.go: New"), ("wiring", "x/dex/module/module.go: ProvideModule, RegisterServices, RegisterInterfaces"), ("genesis", "x/dex/module/module.go: InitGenesis, ExportGenesis, DefaultGenesis, ValidateGenesis")],
  "The initialiser of the application package is run symbolically; the composed configuration, with everything it points to, must have the entries named. ProvideModule, NewKeeper and the module's methods are run symbolically and each path's keeper, authority, registered server or genesis value compared with what was provided, decoded or returned. In app.New the registration must dominate every return.",
  "the application's own code; what the SDK's runtime does with a configuration is trusted, and so is dependency injection. The order among modules is not decided")

P("P44", "The price moves where the orders push it, until the book no longer crosses",
  "In a batch of a pair with a last price, the price rises exactly if what buys above the last price can match there exceeds what all sells at or below it can, falls exactly if what sells below it can match exceeds what all buys at or above it can, and stays otherwise. Nothing is matched without a try at the last price unless a side is empty. If the price stays that try is all; otherwise the best remaining ticks of both sides are matched pair by pair, at the sell tick's price when it rises and at the buy tick's when it falls, each pair for as much as both can match; a tick is left behind exactly when it can match no more; matching ends only when a side is used up or the best buy price is below the best sell price.",
  ["inputs"], "every order book and every last price", SAMPLEBOOK,
  [A + "match.go"],
  [("direction", A + "match.go: PriceDirection"), ("tick by tick", A + "match.go: Match")],
  "PriceDirection is run symbolically: the loop-carried sums are classified by which ticks (better than the price, at it, worse) each adds, the exit of each loop must leave out no better tick, and the facts of each returned direction must decide the two comparisons accordingly. In Match the indices of the two ticks must start at the first, and in every body of the loop the step of each index must follow from the facts about what its tick can match and what is matched; every exit must carry one of the allowed reasons.",
  "all paths of the two functions; that amounts add up without overflow is the math library's")

P("P45", "A single price matches as much as both sides can",
  "When orders match at a single price, all ticks whose orders accept the price take part at first. A side's worst tick is left out exactly if the side's better ticks already cover what can be matched, or, for sells, if the part of it that would be matched is worth nothing at the price; the side's total loses exactly what that tick had. What is matched is the smaller of the two totals once neither side has such a tick. Nothing is matched exactly if one side has no tick that accepts the price or loses its last one.",
  ["inputs"], "every order book and every price", SAMPLEBOOK,
  [A + "match.go"],
  [("matchable amount", A + "match.go: FindMatchableAmountAtSinglePrice")],
  "The function is run symbolically with the amount of a tick as an unknown function. The prefix of ticks of each side, its total and the index of its worst tick are found as loop-carried values; each body of the dropping loop must justify every step of an index by its facts, change the total by exactly that tick, and make progress; each return must carry the facts that make it the right one.",
  "all paths and loop bodies of the function; the order in which the two sides are looked at is not fixed")

P("P46", "Only corrupt state or a failing transfer makes the module panic",
  "Beginning or ending a block, handling a message, answering a query, checking an invariant or exporting genesis panics only if a stored record or index entry does not decode or refers to a record that is not there, if a stored address or parameter is not an address, if a value is none its type has (a status, direction or pool type), or if the bank refuses a transfer the batch has decided on. In particular no error of any other origin reaches the end of a batch, where it would stop the chain, and no amount is computed from a number that was never set. The matching engine itself panics only when asked to fill an order by more than it can match, for the price of a pool without reserves, or for the tick of a price of zero.",
  ["inputs", "histories", "fault_sequences"], "every state, message, query and batch", "a panic needs a state or an argument the tests do not set up; in a batch it stops every node at once",
  ["x/dex/module/abci.go", K + "batch.go", K + "swap.go", K + "pool.go", A + "match.go", A + "pool.go", T + "util.go"],
  [("batch", K + "batch.go: ExecuteRequests, DeleteOutdatedRequests"), ("settlement", K + "swap.go: ApplyMatchResult, FinishOrder"), ("requests", K + "pool.go: ExecuteDepositRequest, ExecuteWithdrawRequest"), ("engine", A + "match.go, pool.go, tick.go")],
  "Every panicking path of every entry point is enumerated (explicit panics, errors passed to panic, arithmetic on a number that was never set) and its cause read off the panic value and the path's facts; each must be one of the named causes. Each exported function of the matching engine is analysed on its own in the same way.",
  "all paths of all entry points except genesis import, which refuses by a panic. Overflows, divisions by zero, indices out of range other than those named by P44 and P45, and panics inside the SDK are not decided")

P("P47", "A new pool takes what its range needs and its curve meets its balances",
  "A ranged pool takes only base coin if its initial price is its minimum, only quote coin if it is its maximum, and otherwise all of one coin and, rounded up, of the other the amount that puts the price at the initial price (never more base coin than offered; all base coin only if there is too little of it for all quote coin). A basic pool takes what it is given. Both get a supply of ten to the power of half (rounded up) the sum of the digits of the amounts. The price is the quotient of the (translated) balances; the translation is that of the curve x*y=k whose end prices are the range's and which goes through the balances.",
  ["inputs"], "every pair of balances and price range", "the tests compare a few pools with fixed numbers or within a tolerance; a wrong term of the formula that vanishes at symmetrical ranges, or a wrong case at one of the ends, shows only elsewhere",
  [A + "pool.go", A + "util.go"],
  [("creation", A + "pool.go: CreateBasicPool, CreateRangedPool, InitialPoolCoinSupply"), ("curve", A + "pool.go: DeriveTranslation, inv"), ("prices", A + "pool.go: Price, HighestBuyPrice, LowestSellPrice, MinPrice, MaxPrice, Translation")],
  "Every path's result is read as an exact quotient of polynomials over inputs and square roots (roundings erased, squares of roots replaced by what is under them), and compared by polynomial identity: for creation with the required amount, for the translation with the equation of the curve, whose greater solution must be taken; the single coin cases need the matching facts on the path.",
  "all paths of the creation, price and translation functions",
  "Identities are between real numbers: the errors of the roundings and of the approximate square root, also the choice between the two equal ways to compute the constant, are not bounded.")

P("P48", "Amounts too large to compute are cut off and stop nothing",
  "When the amount a buyer could still afford, the amount a pool would buy, or the result of a deposit or withdrawal is too large a number to compute, the batch goes on: the order counts with its whole open amount, the pool with the largest amount there is, and the deposit or withdrawal yields nothing. Only what the number library reports about size is treated so; every other panic goes on as it was.",
  ["inputs", "fault_sequences"], "every price, reserve, supply and amount", "no test uses amounts near the limits of the number types",
  ["x/dex/amm/pool.go", "x/dex/types/order.go", "types/"],
  [("guard", "types/utils.go: SafeMath, IsOverflow"), ("pool amounts", A + "pool.go: BuyAmountOver, BuyAmountTo"), ("deposit and withdrawal", A + "pool.go: Deposit, Withdraw"), ("user orders", T + "order.go: NewUserOrder")],
  "The seven functions are run symbolically, with a panic possible anywhere inside a computation that a deferred function recovers from and everything that computation may have written unknown. Every path whose result is a quotient must have a sibling that recovers from such a panic. The facts of each recovering path about the panic's value are evaluated for each message the number library uses for numbers that do not fit: that path must return, with exactly the fallback; for other messages and for values that are no message it must end in the same panic. Inside the guard no product of whole numbers may be formed whose overflow is reported as an error value, which the guard does not recognise.",
  "the five kinds of guarded computation, all paths; whether the unguarded arithmetic elsewhere can overflow is not decided",
  ["that the messages are those of the number library's pinned version (cosmossdk.io/math v1.3.0) is taken from its source by hand"])

P("P49", "A walk over stored records meets each one once and stops when told",
  "Walking over the stored pairs, pools, requests, orders or counts of market making orders - all of them, those of one pair, or those of one account - hands every record of that kind, and no other, to the caller exactly once, as it is stored and in the order of the store's keys. The walk goes on until the caller says stop or reports an error, ends at once then, reports no error for a stop and hands an error on. The lists of stored records hold exactly what such a walk meets.",
  ["inputs", "histories"], "every content of the store and every caller", "the tests walk over a handful of records, and hardly ever stop or fail half way",
  ["x/dex/keeper/store.go", "x/dex/types/keys.go"],
  [("walks", K + "store.go: IterateAll..., IteratePoolsByPair, IterateOrdersByPair, IterateOrdersByOrderer, Iterate...RequestsBy..."), ("lists", K + "store.go: GetAll..., GetPoolsByPair, GetOrdersByPair, GetOrdersByOrderer, Get...RequestsBy...")],
  "All methods of the keeper that take a callback for records, and all that return a list of records, are found by their types and run symbolically with an unknown callback. Each must open one forward iterator, over exactly the keys of its kind (and pair or account); on every path through its loop the callback gets the record stored at the position (or the one the index entry's key points to) once, and the iterator moves once; the facts of that path must say that there was no error and no stop. The paths that leave must either have met the end, a stop (and return no error) or an error (and return it), and must close the iterator. A list must start empty and append just that record on each of those paths.",
  "the eleven walks and ten lists of the keeper, every path; what a callback does to the store while a walk is under way is not modelled",
  ["index entries and records agree (P24)"])

P("P50", "A pool offers everything it can within the prices of the book",
  "A pool whose price lies within the prices of the book, or beyond their far end, offers on each side all that its curve gives there. It offers nothing only when its price is already past the range. What lies beyond the far end is offered at that end, and the curve then starts from there. From the tick next to its price the pool walks the range: at every price it comes to, it offers the amount its curve gives unless that is too little to trade, in which case it tries the next tick; after an order it goes on by the gap that depends on how far the price is from the pool's own. The walk ends only at the end of the range or when the reserves are used up.",
  ["inputs"], "every pool, price range and tick precision", "the tests compare a few pools with recorded orders",
  ["x/dex/amm/pool.go"],
  [("buy orders", A + "pool.go: PoolBuyOrders"), ("sell orders", A + "pool.go: PoolSellOrders")],
  "PoolBuyOrders and PoolSellOrders are run symbolically for an unknown pool, range and precision, with the tick functions and the gap ratio left uninterpreted. Of every path that does not end in a recovered panic: without a walk the facts must say that the price is past the range; otherwise they must say that the price is not beyond the far end, or the amount up to it is asked for and offered there unless the facts say it is too little, and the balances are set with the curve moved; the walk starts at the tick next to the price (or to the end of the range); each way round the loop asks at the tick it is at, and either offers the answer and goes on to the tick next to the price moved by the gap, or the facts say the answer is too little and it goes on to the neighbouring tick; each way out has met the end of the range or has reserves that the facts say are used up.",
  "both functions, every path; that a pool gives up all its orders after a panic (an overflow) is not judged",
  ["the amounts asked for are those of the curve (P17)", "ticks are where they should be (P41)"])

P("P51", "A well-formed request is refused only for a stated reason",
  "A request that is well formed and meets the conditions stated for its kind is carried out, whatever the rest of the state. An order is refused only if the sender cannot spend the offered amount, it is to live longer than allowed, its pair does not exist, a limit or market making order's price is strictly outside the pair's price limits, a market order's pair has no last price, the coins are not those of the pair for its direction, less is offered than the order needs at its tick price, its amount or worth is below the minimum, or the sender's market making orders in the pair have reached the limit. A pair is refused only if there is one for the same coins in the same order; a pool only if its pair is missing, a coin is not of the pair, the initial deposit is below the minimum, the pair's working pools have reached the limit, a basic pool is already at work, or its prices are off the ticks or too low; a deposit only if the pool is missing or disabled, a coin is not of the pair, a basic pool does not get two coins, or a reserve would exceed the maximum; a withdrawal only if the pool is missing or disabled or the coin is not its own; a cancellation only if the order is missing, another's, ended, or of the current batch; a cancel-all only if a named pair is missing; a parameter change only if it comes from another authority. Otherwise a failure is that of a payment or of the pool formulas, handed on.",
  ["inputs", "histories"], "every message against every stored state", "tests try one accepted and one refused example per condition, away from its boundary",
  ["x/dex/keeper/swap.go", "x/dex/keeper/pool.go", "x/dex/keeper/pair.go", "x/dex/keeper/msg_server.go"],
  [("orders", K + "swap.go: placeOrder, MMOrder"), ("pairs and pools", K + "pair.go: CreatePair; " + K + "pool.go: ValidateMsgCreatePool, ValidateMsgCreateRangedPool, CreateRangedPool"), ("requests", K + "pool.go: ValidateMsgDeposit, ValidateMsgWithdraw"), ("cancellations", K + "swap.go: ValidateMsgCancelOrder, CancelAllOrders")],
  "Every message handler is run symbolically from an unknown state and a well-formed message. On every path that returns an error, either the error contains one that was handed on (a call whose error is known not to be nil there), or the facts of the path must include one of the reasons stated for that message, with its exact comparison - a boundary moved by one, or a further condition, leaves a path whose facts include none.",
  "every failing path of the eleven message handlers; panics (overflow) are judged by P46 and P48",
  ["well-formed messages are not refused before (P33)", "no pool or order without its pair (P24)"])

P("P39", "The order book adds up what is on offer, and the first price balances it",
  "The view of an order book has, for every price level from the best on, the total of what can match there and at better prices. Its best buy and sell prices are those of the first levels with anything on offer; the amounts over and under a price add up exactly the levels within the bound, including the bound only if asked. Several sources offer the sum of what each offers and the best of their prices. Taking off what matches leaves nothing at matched levels and the same matched amount less on all others. A pair without a price gets one exactly when the best buy reaches the best sell: the mean, rounded to a tick, of the lowest tick at which the sells cover the buys above it and the highest at which the buys cover the sells below it.",
  ["inputs"], "every order book, price, bound and set of sources", "unit tests use a few books of fixed orders",
  ["x/dex/amm/view.go", "x/dex/amm/match.go", "x/dex/amm/util.go"],
  [("totals", A + "view.go: MakeView, BuyAmountOver, BuyAmountUnder, SellAmountUnder, SellAmountOver"), ("best prices", A + "view.go: HighestBuyPrice, LowestSellPrice"), ("sources", A + "view.go: MultipleOrderViews"), ("matched part", A + "view.go: OrderBookView.Match"), ("first price", A + "match.go: FindMatchPrice; util.go: findFirstTrueCondition")],
  "Each function is run symbolically. A binary search is a fact about the entries on both sides of the index it finds, and the value returned must be the accumulated sum (or price) those facts single out; loops that accumulate must start at nothing, add each entry once and reach the end. On every path of the first price search the facts must make the first tick the lowest, and the second the highest, that satisfies its condition, within the first and last tick, or show that there is none.",
  "all paths of the functions named; that the searched conditions are monotone along the ticks, as a binary search needs, is assumed; so is that the lowest tick is below the highest")

P("P42", "The order book query shows every level with exactly what it adds",
  "For each price unit asked for, an order book answer lists, from the best price outwards in steps of that unit, every level at which more is on offer than at the levels before, with exactly the difference, within the price limits and up to the number of levels asked for; it ends early only when nothing is left. The unit is the smallest tick gap times ten to the power asked for, the levels start at the best price fitted to the unit away from the other side, and the base price is the middle of the best prices rounded to a tick, or the only one there is. An empty book shows nothing.",
  ["inputs"], "every order book, price limit and query configuration", "unit tests print some fixed books",
  ["x/dex/types/orderbook.go"],
  [("base price", T + "orderbook.go: OrderBookBasePrice"), ("unit", T + "orderbook.go: FitPriceToTickGap, MakeOrderBookPairResponse"), ("levels", T + "orderbook.go: MakeOrderBookPairResponse")],
  "The function is run symbolically with the view's methods as unknown pure functions. For both sides, every path through the loop over levels must append exactly the amount up to the price less what was shown so far, exactly when that is positive, keep the amount shown, step one unit, and go on only within the limit, below the number asked for and with something left; the loop may be left only for these reasons. Fitting is an exact formula on the integers behind the decimals.",
  "all paths; the order in which levels are listed (sells are reversed in place) and the sorting of configurations are not covered")

P("P33", "Stateless validation accepts exactly the well-formed messages",
  "A message passes stateless validation exactly if its account is a valid address, its ids are not zero, its denominations and coins are valid and where two are needed differ, its order direction is buy or sell, its price is positive, its amounts and offer lie between the smallest and largest allowed coin amounts, the offer covers price times amount rounded up (buy) or the amount (sell), its lifespan is not negative, a pool is created with two coins (a ranged one with one or two) not above the largest amount and with a proper price range, and the pairs of a cancel-all are distinct. It never fails by a panic.",
  ["inputs"], "every message with its fields set", "unit tests try a few dozen messages with one fault each",
  [T + "msgs.go", A + "pool.go"],
  [("validation", T + "msgs.go: ValidateBasic of the ten messages"), ("price range", A + "pool.go: ValidateRangedPoolParams")],
  "ValidateBasic of each message is run symbolically. Every accepting path must entail each condition on the message (for lists: a loop over all elements), every rejecting path must exclude at least one of them, and no path may panic.",
  "all paths of the ten functions; validity of coins and denominations is the SDK's; fields missing from the wire (nil numbers) are not covered")

P("P40", "A message acts only for the account that signs it",
  "Each message names the account that must sign it, and the module and the transaction layer agree on it. Handling a message moves coins only out of the signer's account or out of the module's own accounts (escrow, reserves, module account), and the orders, requests and pools it stores belong to the signer.",
  ["inputs", "histories"], "every message against every state", "tests sign with the account they use",
  [T + "msgs.go", T + "tx.pb.go", K + "swap.go", K + "pool.go", K + "pair.go"],
  [("declared signer", T + "tx.pb.go: file descriptor, option cosmos.msg.v1.signer"), ("signers", T + "msgs.go: GetSigners"), ("handlers", K + "msg_server.go")],
  "The signer option is decoded from the protobuf descriptor in the generated source. GetSigners, run symbolically, must return exactly the address in that field. On every path of every message handler each bank transfer's source must be that address or an account of the module, and each stored record's owner the signer (or the record was found through the signer's own index).",
  "all paths of all messages; parameter updates, which move and store nothing of a user, are decided in P28")

P("P38", "Emitted events tell exactly what was done",
  "Each created pair and pool, placed request and order, cancellation, match of a user order, ended order and ended request is told by exactly one event of its type, whose attributes are those of the stored record and of the coins moved on that path: the new status, what remains and was received, what was refunded, minted, paid and matched, and the ids of exactly the orders a cancel-all ended. No such event is emitted where nothing of the kind happened.",
  ["inputs", "histories"], "every message and block on every state", "tests look at state, hardly at events",
  [K + "swap.go", K + "pool.go", K + "pair.go"],
  [("events of orders", K + "swap.go: placeOrder, CancelOrder, CancelAllOrders, ApplyMatchResult, FinishOrder"), ("events of pools", K + "pool.go: CreatePool, CreateRangedPool, Deposit, Withdraw, FinishDepositRequest, FinishWithdrawRequest"), ("pairs", K + "pair.go: CreatePair")],
  "On every path of every entry point the emitted events are collected as terms and matched one to one with the record writes and bank transfers of that path; every attribute must be the written-out value of the corresponding term. The list of cancelled ids is checked as a loop invariant: appended exactly in rounds that end an order.",
  "all paths of all messages and blocks; the totals per pool in pool_order_matched events are not followed (accumulated through pointers in a map), only their pair; extra events and attributes are allowed")

P("P41", "Prices are rounded to ticks exactly, and ticks are numbered without gaps",
  "With tick precision n, ticks are the prices with at most n+1 leading digits. Rounding down gives the highest tick not above a price, rounding up the lowest not below it; a price on a tick stays; the next tick up or down is one gap away, where below a power of ten the gap is a tenth. Tick numbers and ticks correspond one to one in order of price, and rounding to the nearest tick picks the neighbour with the even number. Prices fail to round only when they are zero.",
  ["inputs"], "every price from the lowest to the highest tick and every precision", "unit tests use a dozen prices at precisions 3 and 4",
  ["x/dex/amm/tick.go"],
  [("rounding", A + "tick.go: PriceToDownTick, PriceToUpTick, RoundPrice"), ("steps", A + "tick.go: UpTick, DownTick, TickGap, isPow10"), ("numbering", A + "tick.go: TickToIndex, TickFromIndex, RoundTickIndex"), ("scale", A + "tick.go: LowestTick, HighestTick")],
  "Each function is run symbolically, with the integer behind a decimal as a term and its operations modelled. On every path the result must be one of the exact formulas (floor to a multiple of 10^(digits-1-n); tick plus or minus that power; the numbering as a polynomial), under path facts that make the formula apply; the test for powers of ten is checked as a loop: it divides by ten only while nothing remains and says yes exactly at one. TickPrecision's methods must agree with the functions.",
  "all functions of tick.go except RandomTick (used only by simulations); that the formulas describe the scale is elementary arithmetic and argued here, not computed; prices below the lowest tick are not covered")

N("P91", "The match price of a batch trades the largest possible amount",
  "Of all prices at which a batch could be settled, the one chosen leaves no trade undone that another price would have made: the amount traded is the largest that orders and pools allow at a single price.",
  ["inputs"], "every set of orders and pools of a pair", "the order book tests compare a few dozen books with hand-computed prices",
  ["x/dex/amm/match.go", "x/dex/amm/view.go"],
  [("search", A + "match.go: FindMatchPrice, FindMatchableAmountAtSinglePrice")],
  "Optimality compares amounts at prices that only exist at run time and rests on the monotonicity of sums over order lists and of pool curves; an argument over terms bounds neither. What is decided of it: one price per batch (P16), balance of both sides (P18), how a view counts amounts (P39), the bounds of the pools (P17, P47).")

N("P92", "A pool's curve invariant never decreases by trading",
  "However a pool's orders are matched, the product of its (translated) reserves after the batch is not below the one before it, up to the rounding of one smallest unit per order.",
  ["inputs", "histories"], "every pool, price range and sequence of matched amounts", "tests check the product after a few trades at chosen prices",
  ["x/dex/amm/pool.go"],
  [("curve", A + "pool.go: BuyAmountOver, SellAmountUnder, BuyAmountTo, SellAmountTo"), ("orders", A + "pool.go: PoolBuyOrders, PoolSellOrders")],
  "The product depends on magnitudes and on the direction of nonlinear roundings (division by a price, square root) added up over many orders; bounding it takes real arithmetic over unbounded values. What is decided of it: which formulas and rounding directions the amounts use (P10, P47), and that pool orders stay within reserves and price range (P17).")

N("P93", "A ranged pool's price and reserves stay inside its range",
  "The translated reserves computed for a ranged pool reproduce its reserves and its price, the price stays between the pool's minimum and maximum, and each reserve is used up exactly at the opposite bound, up to rounding.",
  ["inputs"], "every range, reserve pair and price", "tests sample ranges and compare with tolerances",
  ["x/dex/amm/pool.go"],
  [("translation", A + "pool.go: DeriveTranslation, NewRangedPool, CreateRangedPool")],
  "The accuracy of a chain of square roots and divisions over decimals of 18 digits is a numeric error bound, which dataflow over terms cannot give. What is decided of it: the structure of the curve's formulas per kind of pool (P47) and the stored limits of ranges (P11, P33).")

N("P94", "Square roots of prices and reserves are accurate to the last digit",
  "The square root used for prices and reserves differs from the exact value by at most one unit of the last digit.",
  ["inputs"], "every decimal", "tests sample values",
  ["types/utils.go"],
  [("roots", "types/utils.go: DecApproxSqrt")],
  "The root is computed by an iteration in a dependency; its convergence and accuracy are numeric facts about that loop, not about the structure of this code.")

N("P95", "No index leaves its slice and no number its width, whatever the state",
  "No transaction, query or block makes an index go past its slice or an arithmetic result past the width of its type, for any amounts and counts.",
  ["inputs", "histories"], "every state and input", "tests use small amounts and short lists",
  ["x/dex"],
  [("arithmetic", "cosmossdk.io/math: 256-bit Int, 315-bit LegacyDec")],
  "Widths of 256 and 315 bits are reached or not depending on products of run-time magnitudes (supplies, prices, lengths); no interval this analysis could infer separates them. What is decided of it: overflow met under protection is caught, judged and answered (P48), explicit panics (P46), division by zero on the paths of blocks and messages (P15, P34).")
