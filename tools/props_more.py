T = "lib/tickdata/tickdata.go"
ADT = " Assumed: code outside the package reaches the unexported fields of the list only through its functions (Go's encapsulation), so the representation invariant proved for each of them holds at every call."
prop("C13", "The tick list always represents exactly the recorded liquidity changes",
 "After any sequence of tick updates, crossings and clears of ticks whose net change is zero, the list is strictly sorted, contains exactly the ticks updated and not cleared, and holds for each the sum of its gross and signed net changes modulo 2^256. A search for the next tick within a 256-tick word returns the nearest listed tick in the given direction or the word's boundary, including negative ticks, and the summed net liquidity does not change between the start and the tick returned. Insertion and removal touch no other tick, a copy of the list is equal and independent, and no argument is modified or kept.",
 ["histories", "inputs"], "all operation sequences, tick spacings, ticks (including negative) and liquidity amounts",
 "no test exists for the list; errors appear only for particular positions of a tick relative to the others and to word boundaries, and sharing shows only in later operations",
 [T], [("binary search and shifting insertion/removal in one slice", T+" binarySearch, binarySearch2, UpdateTick, ClearTick"), ("word-boundary arithmetic on negative ticks", T+" NextInitializedTickWithinOneWord"), ("deep copy", T+" Clone")],
 claim="Proved for all lists of any length, all ticks and amounts: every function maps an arbitrary list satisfying the representation invariant to one that satisfies it and whose abstract content changed exactly as stated, so the property holds for every history by induction."+ADT+BASE)
prop("C14", "Fee growth inside a range follows the outside/global accounting exactly",
 "A tick starts with the global fee growth as its outside value when it lies at or below the current tick and with zero otherwise, crossing replaces the outside value by global minus outside and returns the tick's net liquidity, and no other operation changes it. The fee growth inside a range equals global minus below minus above modulo 2^256 for every position of the current tick relative to the range. The results are fresh values and no argument is modified.",
 ["histories", "inputs"], "all ticks, global values, current ticks and operation sequences",
 "no test exists; a wrong boundary comparison only shows when the current tick equals a range bound",
 [T], [("outside-value flip on crossing", T+" Cross"), ("inside = global - below - above", T+" GetFeeGrowthInside"), ("initial outside value", T+" makeTick, UpdateTick")],
 claim="Proved for all lists, ticks and values."+ADT+BASE)
TMF = "lib/tickmath/tickmath.go"
prop("C12", "Ticks and square-root prices convert exactly in both directions",
 "For every tick in [-887272, 887272] the square-root price is the value Uniswap V3 defines (strictly increasing, within rounding of 1.0001^(tick/2) * 2^96), and the caller gets a private copy of it. For every price from the smallest to just below the largest, the tick returned is the unique one whose price is at most the given price while the next tick's price is above it; every other price is rejected. Rounding a tick to a multiple of a pool's tick spacing yields the nearest, next lower or next higher multiple.",
 ["inputs"], "all 1774545 ticks, all 256-bit prices, all ticks times spacings in use",
 "the tests look at a few ticks; a wrong table constant shows only at ticks with one particular bit, a wrong search step only at particular prices",
 [TMF], [("bitwise product with 20 constants", TMF+" getSqrtRatioAtTick"), ("binary search over the table", TMF+" GetTickAtSqrtRatio"), ("copy of the table entry", TMF+" GetSqrtRatioAtTick"), ("rounding in floating point", TMF+" Round, Ceil, Floor")],
 claim="Proved for all ticks and prices: the search and the copy by contract. The table itself is a constant of the program: every entry of the table the current source builds is evaluated and compared with the definition and with the real exponential (exhaustive, no bound; the generator getSqrtRatioAtTick is evaluated, not put under contract), likewise the floating-point rounding helpers for every tick in [-2^22, 2^22] and the spacings 10, 60, 200."+BASE)
PO = "lib/pool/pool.go"
PS = "lib/position/position.go"
POOLB = " Domain: fee 500, 3000 or 10000, liquidity of every range and tick below 2^128, ranges burned only up to what was minted on them. Trusted: strconv.Itoa(a)+\"-\"+strconv.Itoa(b) differs for different (a,b)." + ADT
prop("C15", "Mint, burn and collect change one position and pay what its range is worth",
 "Minting adds exactly the given liquidity to the one position of that range, credits it the fees its old liquidity earned since its last update, and charges the tokens the range is worth at the current price rounded up; burning removes it, credits the fees and owes (and returns) the worth rounded down; collecting returns everything owed and leaves nothing owed. Every other position, including one on any different range, and the price stay as they were. Minting nothing or a negative amount and ranges that are empty or outside the tick limits are refused.",
 ["histories", "inputs"], "all histories of pool operations, all ranges relative to the current tick, all amounts and fee states",
 "there is no test of the pool; errors show only for particular positions of the range relative to the price, particular pairs of ranges, or on the second update of a position",
 [PO, PS], [("position update and fee credit", PS+" Update; "+PO+" updatePosition"), ("amounts by case of the current tick", PO+" modifyPositionStrategy"), ("record per range", PO+" updatePosition, CollectStrategy")],
 claim="Proved for all pools satisfying the pool invariant (which every operation is proved to preserve), all ranges, amounts and fee states."+POOLB+BASE)
prop("C16", "Active liquidity, ticks and price stay consistent over every history",
 "After any sequence of mints, burns, collects, flashes, swaps and copies, the pool's active liquidity equals the total liquidity of the ranges that contain the current tick, every listed tick's gross and net amounts are the totals of the ranges starting and ending there, and a tick is listed exactly when some range uses it. The current tick is always the one whose price interval contains the current price.",
 ["histories"], "all histories of pool operations from a new pool",
 "there is no test of the pool; the invariant breaks only after particular sequences, such as a crossing in one direction followed by a burn",
 [PO], [("liquidity updated on mint/burn in range and on every crossing", PO+" modifyPosition, modifyPositionStrategy, swap"), ("tick after reaching or stopping short of a stop", PO+" swap")],
 claim="Proved as an inductive invariant: established by NewPool and preserved by every exported operation for all arguments. A tick whose price interval contains the price includes its upper end, where the price stands right after crossing down."+POOLB+BASE)
prop("C17", "A swap respects its limit and its amount and follows the liquidity curve",
 "Every swap terminates with the price between the start and the limit, either at the limit or with the whole amount swapped; an exact-input swap never takes more than the input and an exact-output swap never pays more than requested. The amounts are the sums, over consecutive stops (listed ticks, word boundaries, the limit), of what the liquidity at that tick is worth between the two prices, rounded against the trader, plus fees. A zero amount and a limit on the wrong side of the price or outside the price range are refused, and the pool's identity and positions do not change.",
 ["histories", "inputs"], "all pools reachable by any history, both directions, all amounts below 2^128 and all limits",
 "there is no test of the pool; errors show only when a swap crosses several ticks, ends exactly on one, or runs out of liquidity",
 [PO], [("step loop with remaining and calculated amounts", PO+" swap"), ("direction and sign of the amount", PO+" ExactInputSwap, ExactOutputSwap")],
 claim="Proved for all pools satisfying the pool invariant with at least one tick ever listed, including termination."+POOLB+BASE)
prop("C18", "Fees are charged at the pool's rate and credited to the active liquidity",
 "Every swap charges at least the pool's fee rate on the input of each step and adds to the growth of the input token, and only that token, exactly the step's fee per unit of the liquidity active in that step. Each listed tick the swap passes has its outside growth replaced by global minus outside, once, and no other tick's changes. A flash adds the rounded-up fee on each amount per unit of active liquidity to the global growth and changes nothing else.",
 ["histories", "inputs"], "all pools reachable by any history, both directions, all amounts and limits",
 "there is no test of the pool; wrong growth only shows later, in the fees of positions around the crossed ticks",
 [PO], [("growth update in the step loop", PO+" swap"), ("flip on crossing with the right pair of growths", PO+" swap; lib/tickdata Cross"), ("flash fees", PO+" Flash")],
 claim="Proved for all pools satisfying the pool invariant."+POOLB+BASE)
prop("C19", "Copies are independent; no operation touches its arguments or shared constants",
 "A copy of a pool equals the original in every observable respect, and no operation on one ever changes the other. No operation of the pool, its positions or its ticks modifies an argument, keeps a reference to one that it later writes to, returns an integer it later writes to, or changes a shared constant or the tick price table.",
 ["histories"], "all histories of operations on pools and their copies",
 "there is no test; sharing shows only when a later operation writes in place",
 [PO, PS, T], [("deep copies", PO+" Clone; "+PS+" Clone; "+T+" Clone"), ("in-place big-integer arithmetic on fields, constants and results", PO+", "+PS)],
 claim="Proved: the copy is a fresh object graph with equal contents; every operation's frame (what it may write: only its receiver's graph), freshness of its results and the separation of what it keeps from its arguments are obligations of each function."+POOLB+BASE)
PR = "lib/prices/prices.go"
UB, UC = "uint256/uint256.go", "uint256/conversion.go"
prop("C07", "Byte and big-integer conversions of 256-bit integers are exact",
 "SetBytes reads a buffer of any length as a big-endian number modulo 2^256 and SetBytesN the first N bytes, refusing fewer; neither looks at bytes beyond the length or changes the buffer. Bytes gives the shortest big-endian form, Bytes32, Bytes20, WriteToArray32, WriteToArray20 and PaddedBytes the low bytes padded with zeros, and WriteToSlice writes the low bytes into the first 32 bytes (or all, if fewer) of the buffer and nothing else. ToBig and SToBig give the unsigned and the signed value, and SetFromBig and FromBig the value modulo 2^256 with an overflow flag for magnitudes of 2^256 or more.",
 ["inputs"], "all 256-bit values, buffers of all lengths, contents and capacities, all big integers",
 "the tests use one sample buffer and a handful of values; a wrong byte, sign or length shows only at particular lengths, values or spare capacities",
 [UB, UC], [("reading of big-endian bytes", UC+" SetBytes1 to SetBytes32; "+UB+" SetBytes"), ("writing of big-endian bytes", UB+" Bytes, Bytes32, Bytes20, PaddedBytes, WriteToSlice, WriteToArray32, WriteToArray20"), ("big integers", UC+" ToBig, SToBig, SetFromBig, FromBig")],
 claim="Proved for all values, lengths and capacities. encoding/binary's big-endian routines and math/big are modelled by their documented meaning; PaddedBytes is proved for sizes up to 2^30."+BASE)
prop("C22", "Price statistics are exact over the window of most recent prices",
 "A price history of size N holds the squares of the N most recently added prices, with zeros for those not yet added, and refuses a price whose square is 2^230 or more. The average is the floor of their mean, and the volatility is the floor of the square root of the floored sample variance around that average. Computing them changes neither the recorded prices nor the values handed in or out.",
 ["histories"], "all sequences of prices, all window sizes up to 2^24",
 "there is no test of the history; errors show only after the window wraps around, with extreme prices, or when a caller keeps using a value it handed in",
 [PR], [("ring buffer with running index", PR+" Add"), ("squares in 256 bits", PR+" Add"), ("sum and mean", PR+" Average"), ("sample variance through math/big", PR+" Volatility; uint256/conversion.go ToBig, SetFromBig")],
 claim="Proved for all windows, contents and prices: Add overwrites the oldest slot with the square and keeps the others, so the window content follows by induction over the history; the sums are ghost prefix sums over the window. Assumed: the documented meaning of math/big's integer operations."+BASE)
ST = "lib/strategy/"
STALL = [ST+f for f in ("2_interval_around_price.go", "bollinger_bands.go", "bollinger_fill_up.go", "constant_intervall_strategy.go", "fill_up.go", "interval_around_average.go", "interval_around_current_price.go", "limit_order.go", "no_provision.go", "swap_half_constant_interval_current_price.go", "v2_strategy.go", "volatility_sized_intervals.go")]
STB = " Domain: pools as for the pool properties; interval widths at least one tick spacing; tick ranges inside the tick limits and liquidity within 128 bits (assumed at the mint calls where the strategy does not check it). Partial correctness: where the code panics (an interval outside the limits, Init with nothing to mint in two strategies) nothing is claimed."
prop("C20", "Strategies open positions within their holdings and pay exactly the charge",
 "Whenever a strategy opens a position it buys exactly the liquidity its current holdings pay for on that interval (half of it for the limit order's second position; the swapping strategy first swaps at most half of what would be left over), mints it in its own copy of the pool, and its holdings decrease by exactly what the pool charges, never below zero. Positions already open stay recorded as they were, and an interval the holdings buy nothing on changes nothing. A strategy starts with the given amounts and an own copy of the pool, and never changes what it was created from.",
 ["histories", "inputs"], "all twelve strategies, all holdings, widths, pool states and histories of market operations",
 "there is no test of any strategy; an overspent holding wraps around silently to an enormous amount and only for particular prices, holdings and second positions",
 STALL, [("liquidity for holdings, mint, subtract the charge in place", ST+"*.go mintPosition, mintHalf, Init, Rebalance"), ("swap of half the larger leftover", ST+"swap_half_constant_interval_current_price.go mintPosition"), ("own copies", ST+"*.go New*")],
 claim="Proved for all holdings, pool states and parameters: minting (affordability of the charge, the recorded position, what stays) function by function, opening and rebalancing from those contracts."+STB+BASE)
prop("C24", "Closing returns every position in full; valuation is exact",
 "BurnAll burns the whole liquidity of every recorded position on its own range, credits the holdings with everything the pool then owes for it, leaves no position recorded and returns the holdings; rebalancing closes everything in the same way before it opens anything and reports the holdings in between. GetAmounts gives the holdings plus what every recorded position is worth at the current price, rounded down, and changes nothing.",
 ["histories", "inputs"], "all twelve strategies, all recorded positions, pool states and histories of market operations",
 "there is no test of any strategy; a position closed in part or twice, or valued at another price, shows only after particular histories",
 STALL, [("burn, collect and credit each position, then forget them", ST+"*.go BurnAll, Rebalance"), ("sum of the worths", ST+"*.go GetAmounts")],
 claim="Proved for any number of positions, by loop invariants with ghost sums over the positions. Assumed at the burn calls: the pool still holds the positions that the strategy recorded (nobody else burns them)."+STB+BASE)
EX = "lib/executor/executor.go"
prop("C23", "A run does everything that is due, once, in order, and records exact values",
 "A run goes through the transactions in order up to the first one after the end time: the strategy is opened at the first transaction at or after the start time, and before each transaction a price is recorded if it is later than the price time due, then the holdings are valued and then the strategy is rebalanced if it has reached the time due for that (first one interval after the opening), each due time moving on by its interval when it is met. Then the transaction is applied once to the pool of the strategy with its own range and amounts (mint, burn, flash, or an exact-input swap of its positive amount without price limit); at the end the strategy is closed once. The opening, every valuation and the closing each append one value, amount 0 plus the floor of amount 1 times 2^192 by the square of the current square-root price, and recorded values stay.",
 ["histories", "inputs", "configurations"], "all transaction lists of any length, start and end times, intervals, strategies, amounts and prices",
 "there is no test of the executor; an action that is skipped, doubled or out of order shows only for particular gaps between timestamps, and a wrapped square of the price only at prices the sample data never has",
 [EX], [("main loop with due times", EX+" Run"), ("value of the holdings", EX+" Run"), ("initial state", EX+" CreateExecution")],
 claim="Proved for transaction lists of any length by a loop invariant over ghost histories of what was done before which transaction. The strategy is known to the executor only through its interface: the six methods are described by trusted contracts (they answer fresh amounts and leave a valid pool, which C20 and C24 prove of the twelve strategies)."+BASE)

prop("C25", "Text forms of values and transactions decode to what was encoded",
 "Decoding the hexadecimal text of a 256-bit integer gives the integer, texts that are not canonical or too long are refused, and RLP text is canonical. A transaction written as JSON and read again has the same type, amounts (signed decimal), range, time and flags.",
 ["inputs"], "all integers, all texts, all transactions",
 "the tests use a few sample texts; a wrong digit class or a lost sign shows only for particular texts",
 [UC, "lib/transaction/transaction.go"], [("hexadecimal digits", UC+" fromHex, Hex, checkNumberS"), ("RLP", UC+" EncodeRLP"), ("JSON", "lib/transaction/transaction.go MarshalJSON, UnmarshalJSON")],
 na="The contracts have no theory of strings: texts are opaque values for govc, and the decoding of transactions is encoding/json by reflection over struct tags, which no contract within reach describes. The conversions between integers and bytes or big integers below the text forms are C07.")
