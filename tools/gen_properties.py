#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json
TE="trading-engine/src/"; QL="quantlib/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),hook=None,state=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(observe),"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- trading engine
p("C01","Order matching follows price-time priority and conserves quantity",
 "For every sequence of limit orders, market orders, cancellations, back-of-queue removals and amendments with distinct order numbers (in any numeric order), positive quantities and prices between the two ends of the 64-bit range (the ends themselves stand for an empty side), the trades an order book reports are exactly those of price-time priority: best opposite price first, oldest resting order first within a price, never at a price worse than the incoming limit. Every incoming unit is either traded, left resting at the order's limit price, or (market order) reported back as unfilled, and every traded unit leaves the resting side exactly once.",
 ["histories","inputs"],"all operation histories over any set of prices/quantities within the integer ranges, any interleaving of the two sides",
 "Unit tests replay a handful of fixed books of a few orders; matching bugs need a particular history (partial fills, then amend, then sweep through several levels on one side).",
 [TE+"orderbook/mod.rs",TE+"orderbook/half_book.rs",TE+"orderbook/level.rs",TE+"types/base.rs"],
 [("limit and market order processing",TE+"orderbook/mod.rs"),("per-level FIFO queue",TE+"orderbook/level.rs")],
 ["OrderBook operations' return values","TradeHistory"],None,
 [("levels","price -> FIFO of (order id, quantity)",TE+"orderbook/half_book.rs")])
p("C02","All views of the order book describe the same resting orders",
 "After any such history the book's best bid and ask, per-price totals and order counts, side totals, lookup of an order by its number, level snapshots, printed ladder (whole or one side, up to a depth) and self-check all describe one and the same set of resting orders, no price level is empty, and a book fed only through matching operations is never crossed. A same-price amendment keeps the order's queue position, a price amendment puts it at the back of the new price (or trades it), amending to zero withdraws it, and a cancelled, removed or fully filled order can no longer be found.",
 ["histories","inputs"],"all histories of book operations, observed after every single operation",
 "Tests check selected fields at the end of short scripts; the redundant indices (best price, cached totals, id map) only drift apart after specific histories.",
 [TE+"orderbook/mod.rs",TE+"orderbook/half_book.rs",TE+"orderbook/level.rs"],
 [("cached best price, totals and id map maintained per operation",TE+"orderbook/half_book.rs")],
 ["best price, snapshots, get_order, totals after each operation"])
p("C03","Depth snapshots are reproduced exactly by the order book",
 "Loading a depth snapshot (quote or trade-and-quote) of the book's own instrument into a book that has only been fed snapshots makes its level view - prices, quantities, best prices, totals - equal to the snapshot's non-empty levels, whatever the previous snapshot was, and a snapshot of another instrument is refused and changes nothing. For any book, decomposing a new depth view into orders updates the book to that view, and replaying the emitted orders on a copy of the previous book gives the same view.",
 ["histories","inputs"],"all sequences of snapshots (levels appearing, disappearing, moving, padded with empty levels) and all prior books",
 "Tests apply one or two hand-written snapshots; the difference logic depends on the overlap pattern between consecutive snapshots.",
 [TE+"orderbook/mod.rs",TE+"orderbook/half_book.rs",TE+"data/quote.rs",TE+"data/trade_quote.rs"],
 [("snapshot diff",TE+"orderbook/half_book.rs")],["level snapshots before/after; emitted orders"])
p("C04","Exchange messages decode to the values on the wire",
 "For every well-formed exchange message of a supported kind (derivatives and stock quote, trade, trade-and-quote; 5 or 10 levels), every decoded field - instrument, event time, prices, quantities, order counts, liquidity-provider quantities, trade side, cumulative quantity - equals the value independently read from the documented byte positions, with the price scale of that instrument class. Decoding into a fresh record, into a reused buffer (whatever it held before) and with a reduced number of levels or without cumulative quantity agree on every field they provide.",
 ["inputs","histories"],"all well-formed payloads of the supported message types, all level cuts, all prior buffer contents",
 "Tests decode about one sample message per type and compare a few fields; sign, scale, unused digits, level cuts and stale buffers are input-dependent.",
 [TE+"data/krx/derivative_quote.rs",TE+"data/krx/derivative_trade.rs",TE+"data/krx/stock_trade.rs",TE+"data/krx/mod.rs",TE+"data/krx/stock_quote.rs",TE+"data/krx/krx_converter.rs",TE+"utils/numeric_converter.rs"],
 [("fixed-offset decoders and per-class numeric layouts",TE+"data/krx")],["decoded structs"])
p("C05","Malformed exchange messages are rejected without memory errors or crashes",
 "For any byte string whatsoever handed to a message decoder, a numeric or time field parser, or an identifier constructor, nothing outside the given bytes is read and no undefined behaviour occurs. Decoders and identifier constructors always return a value or an error and never panic: a message of the wrong length or terminator, with an ill-formed ISIN, or too deep for the given buffer is reported as an error, everything else is decoded; numeric and time field parsers accept every text of their full width and may refuse a shorter one only by a clean panic.",
 ["inputs"],"all byte strings: truncations, extensions, bit flips, non-UTF-8 bytes, wrong terminators of valid messages, and random bytes",
 "Tests only pass valid messages in ordinary builds, where an out-of-bounds read returns garbage silently instead of failing.",
 [TE+"data/krx",TE+"utils/numeric_converter.rs",TE+"data/checker.rs",TE+"types/id/isin_code.rs"],
 [("payload validity checks",TE+"data/krx"),("unaligned wide loads",TE+"utils/numeric_converter.rs")],
 ["return values; AddressSanitizer / Miri reports"])
p("C06","Fixed-width numeric fields convert exactly",
 "For every numeric layout (digit count, decimal places, sign, leading unused bytes, decimal point kept or dropped) and every in-range value, converting its text representation gives exactly that value, for signed, unsigned, checked and buffered forms alike, and the normalised real value equals value divided by its scale. The specialised short, medium and long digit parsers agree with ordinary decimal parsing for every length they support.",
 ["inputs","configurations"],"all layouts the constructor accepts, all values (including zero, extremes, negative, all-nines) of each width",
 "Tests try a few literals for a few layouts; the SWAR parsers have per-length masks that differ for each width.",
 [TE+"utils/numeric_converter.rs"],[("SWAR digit parsers and converters",TE+"utils/numeric_converter.rs")],["returned integers"])
p("C07","Event times and clock conversions are exact and roll over midnight",
 "Every valid wire time of day converts to the exact nanosecond of the day, and stamping a stream of wire times with a running date yields the true instants: the date advances exactly when the time of day wraps past midnight, for messages at most nine hours apart that are not reordered across midnight. Converting a Unix nanosecond timestamp to date, hour, minute, second, milli-, micro- and nanosecond texts agrees with calendar arithmetic for every instant, and the process-wide nanosecond clock never runs backwards within or across threads and tracks the system clock.",
 ["inputs","histories","schedules"],"all times of day, all sequences crossing midnight any number of times, all instants, all thread interleavings",
 "Tests check two or three literals, one thread.",
 [TE+"types/timestamp.rs",TE+"utils/numeric_converter.rs",TE+"utils/timer.rs"],
 [("running-date time stamper",TE+"utils/numeric_converter.rs"),("clock text conversion",TE+"utils/timer.rs")],["returned timestamps and strings"])
p("C08","Instrument identifiers are validated, interned and compared consistently",
 "An ISIN is accepted exactly when it is twelve ASCII bytes without blank or tab, and identifiers built from the same code and venue are equal, hash equally, print equally and share one interned entry no matter which threads create them in which order or whether they came back from serialized form, while different ones are never confused. Equality, hashing and text forms of identifiers are mutually consistent.",
 ["inputs","schedules"],"all 12-byte codes and tickers, all venues, all interleavings of concurrent construction",
 "The intern cache is process-global and concurrent; existing tests run single threaded (several are disabled or failing).",
 [TE+"types/id/mod.rs",TE+"types/id/isin_code.rs",TE+"types/id/ticker.rs",TE+"types/venue.rs"],
 [("global intern cache",TE+"types/id/mod.rs")],["identifier API; pointers; serde"])
p("C09","The hand-over queue delivers each item once to every worker, without races",
 "Every item one producer publishes through the single-slot queue is seen by every registered worker exactly once, in order, complete and unchanged until that worker reports it done, and by no unregistered worker; the producer gets the slot back only when every registered worker has reported done, and is told it is busy until then. Worker numbers are distinct and at most 15, anything else is refused, and no execution contains a data race, leak, double free or other undefined behaviour, however the queue was made and whenever it is dropped.",
 ["schedules","histories"],"all interleavings of one producer and any set of workers, items with heap ownership, drop at any point",
 "The one test that exercises it fails/never runs to completion here; races are schedule dependent and invisible without instrumentation.",
 [TE+"spinqueue.rs"],[("atomic pointer and status word",TE+"spinqueue.rs")],["queue API; ThreadSanitizer; Miri"])
p("C10","The logger writes every admitted record exactly once and in order",
 "Every record logged by any thread at or above the configured level before the logging guard is dropped, including before the logger was launched, appears in the log file exactly once, as one complete JSON line carrying its level, topic, source position, fields and the date and time of the logging call in the configured zone; no record below the level appears, and records of one thread appear in the order they were logged, across a switch of the log file too. The console report, when on, shows the same records exactly once and is silent when off, and nothing is logged when no level was set.",
 ["schedules","histories","configurations"],"all thread interleavings, bursts and drops of the guard immediately after logging, all levels and message shapes (quotes, newlines, unicode)",
 "Tests print to the console and assert nothing about the produced log.",
 [TE+"logger.rs",TE+"utils/lazy_string.rs",TE+"topics.rs"],
 [("background writer thread and flush on drop",TE+"logger.rs")],["log file contents"])
p("C11","Concurrent id counters hand out unique, gap-free, bounded ids",
 "Ids handed out by one counter to any number of threads are pairwise distinct, gap-free, increasing within each thread, start at the configured first value, and requests beyond the maximum are refused instead of wrapping; counters of different kinds do not disturb each other.",
 ["schedules","histories"],"all interleavings of concurrent requests, all bounds",
 "Tests call the counters from one thread.",
 [TE+"utils/counter.rs",TE+"types/base.rs"],[("atomic counter",TE+"utils/counter.rs")],["ids returned"])
p("C12","Market microstructure features equal their definitions",
 "For every stream of depth snapshots a quote feature holds exactly the snapshot's levels (up to its depth), times and scaled prices and quantities, whether created from or updated by the snapshot, and refuses a shallower one unchanged. Best prices, mid price, quantity-weighted price of two-sided books and order-flow imbalance per level equal their textbook definitions in the unchanged, improved and worsened price cases of either side, and logarithmic imbalance is always finite. Exponentially weighted averages and sums decay each sample by weight to the power of its own age, for every sequence of values and non-decreasing times, the average trade price is the quantity-weighted mean, and a trade-price feature holds its trade's scaled price and time.",
 ["inputs","histories"],"all quote pairs / series of values and time gaps",
 "Tests evaluate one or two constant examples.",
 [TE+"feature/tick.rs",TE+"feature/weighted_valuation.rs",TE+"feature/weight.rs",TE+"feature/price.rs",TE+"feature/ofi.rs"],
 [("feature functions",TE+"feature")],["feature values"])

p("C13","Written trading records read back unchanged",
 "Writing any serializable record of the trading engine - orders and derived orders, timestamps, level and trade records, balances, topics, enumerations, identifiers, instrument tables, numeric converters and message decoders - as JSON and reading it back gives a record that compares equal, behaves identically and writes the same text again. Records compare equal exactly when all their fields do. Replaying written and re-read derived orders rebuilds the same book, and a written quote snapshot contains every one of its fields. The one-byte codes of sides, trade kinds and data levels read back as the same value, other bytes are refused.",
 ["inputs","histories"],"all serializable records over their whole value ranges, all sequences of derived orders",
 "Tests write one or two default records; ids, scales and nested optional values matter.",
 [TE+"types/timestamp.rs",TE+"types/id",TE+"data/order.rs",TE+"data/quote.rs",TE+"types/base.rs",TE+"utils/numeric_converter.rs",TE+"data/krx"],
 [("serde implementations",TE+"types")],["written text, re-read records, rebuilt books"])
p("C14","Datagrams sent and received by the UDP client arrive unchanged",
 "Every datagram sent to or through the UDP client is delivered complete, unchanged, once and in order (as far as the loopback network itself delivers it), for every length up to the longest UDP message; bytes that are not valid UTF-8 are replaced and nothing else is, and a message is sent to the addressed peer and to no other.",
 ["inputs","histories"],"all payloads and lengths, all interleavings of sending and receiving",
 "The one test sends a short fixed text.",
 [TE+"communication/udp_client.rs"],[("UDP client",TE+"communication/udp_client.rs")],["received texts; sent bytes"])

# ---------------------------------------------------------------- quantlib: time
p("C20","Market calendars agree with independently computed holidays",
 "For every date the calendars support, a date is a holiday for the Korean exchange, Korean settlement, US settlement, NYSE, US government bond, SOFR or Federal Reserve calendar exactly when the market's published rules (weekends, fixed and Monday-observed holidays, computed Easter and lunar-calendar feasts, listed one-off closures and substitute days) say so. User-added and user-removed holidays override the rules - the check order is weekend, removed, rules, added, so a date both removed and added is open unless it is a weekend - and a calendar gives the same answer for one date whatever the time of day or UTC offset convention in which the instant is expressed on that calendar's local day.",
 ["inputs","configurations"],"every calendar day of the supported years (enumerated completely), all combinations of added/removed dates",
 "Tests check a handful of dates; the rules and hard-coded lunar/Easter tables cover 150+ years.",
 [QL+"time/calendars/southkorea.rs",QL+"time/calendars/unitedstates.rs",QL+"time/holiday.rs",QL+"time/constants.rs",QL+"time/calendar_trait.rs",QL+"time/calendars/nullcalendar.rs"],
 [("rule functions and tables",QL+"time")],["is_holiday / is_business_day"])
p("C21","Joint calendars and business-day adjustment follow their conventions",
 "A joint calendar is closed exactly when any of its member calendars is closed. Adjusting a date under a convention returns the date itself if it is a business day or the convention is 'unadjusted', otherwise the next (following) or previous (preceding) business day, switching direction when the modified variants would leave the month; the result is always a business day, never crosses more than the closed stretch, and is idempotent.",
 ["inputs","configurations"],"all dates, all conventions, all combinations of member calendars and added/removed holidays",
 "Tests adjust a few dates on one calendar.",
 [QL+"time/calendar_trait.rs",QL+"time/jointcalendar.rs",QL+"time/calendars/nullcalendar.rs"],
 [("adjust / joint holiday logic",QL+"time/jointcalendar.rs")],["adjusted dates"])
p("C22","Year fractions match the day-count definitions",
 "For every pair of dates with start not after end, the year fraction under each day-count convention equals that convention's formula (actual/365, /360, /364 on elapsed whole days; actual/actual ISDA by calendar year; 30/360 on plain 30-day months; street convention: a start on the 31st counts as the 30th, and an end on the 31st after such a start too), is zero for equal dates, never negative and non-decreasing in the end date, and a reversed interval is an error; splitting an interval at any intermediate date preserves the total for every convention but street (dates without time of day). The calendar-independent time difference used for discounting is additive, antisymmetric and leap-year aware.",
 ["inputs"],"all date pairs over decades incl. month ends, leap days, year ends, times of day",
 "Tests check single examples per convention.",
 [QL+"time/calendar_trait.rs",QL+"time/conventions.rs",QL+"time/jointcalendar.rs",QL+"time/calendars/nullcalendar.rs"],
 [("day count functions",QL+"time/calendar_trait.rs")],["year_fraction, get_time_difference"])
p("C23","Period arithmetic on dates matches calendar arithmetic",
 "Adding or subtracting a tenor text made of years, months, weeks, days, hours, minutes and seconds to a date moves it by exactly that calendar amount: month moves keep the day of month clipped to the month's last day, keep the time of day and UTC offset, and carry years correctly in both directions. Day-, week- and clock-unit tenors are exactly undone by the opposite operation, and larger tenors never lead to an earlier date.",
 ["inputs"],"all start dates (incl. month ends, leap days), all tenors incl. multi-unit and multi-year month counts",
 "Tests check a dozen literals; subtraction across year boundaries is barely covered.",
 [QL+"utils/string_arithmetic.rs"],[("tenor parser and month roll",QL+"utils/string_arithmetic.rs")],["resulting dates"])
p("C24","Coupon schedules tile the life of the instrument",
 "For every start date, maturity, coupon frequency, business-day convention, calendar, fixing gap and payment gap the built schedule consists of consecutive periods that start at the effective date, end at the maturity, neither overlap nor leave gaps and have strictly increasing ends, with each payment and fixing date on the business day its gap and calendar prescribe relative to the period, and no period extends past the maturity, where the last payment falls. Negative gaps and periods collapsed by date rolling are reported as errors, never as a partial schedule; a maturity not after the effective date gives no periods.",
 ["inputs","configurations"],"all combinations of dates, frequencies, conventions, gaps and calendars",
 "Tests print or compare one or two schedules.",
 [QL+"instruments/schedule.rs",QL+"instruments/bond.rs",QL+"instruments/plain_swap.rs"],[("schedule builder",QL+"instruments/schedule.rs")],["schedule entries"])
# ---------------------------------------------------------------- quantlib: math
p("C25","Interpolators and index search agree with their mathematical definition",
 "For every strictly increasing grid and every query, index search returns the interval that contains the query (clamped at the ends) whether done one by one or on a sorted batch. Linear, step, constant and bilinear interpolation reproduce the node values, stay within the bracketing node values, follow the configured extrapolation rule outside the grid, and give the same numbers for batch and single queries.",
 ["inputs","configurations"],"all grids (2..n nodes), all query positions (nodes, between, outside), all extrapolation settings",
 "Tests use one small grid each; batch code paths differ from the scalar ones.",
 [QL+"math/interpolators/linear_interpolator.rs",QL+"math/interpolators/stepwise_interpolatior.rs",QL+"math/interpolators/bilinear_interpolator.rs",QL+"math/interpolator.rs",QL+"utils/find_index.rs",QL+"utils/find_index_ndarray.rs"],
 [("binary search + interpolation",QL+"math/interpolators")],["interpolated values"])
p("C26","Matrix factorisation and vector redistribution are exact",
 "For every symmetric positive definite matrix the factorisation returns a lower-triangular matrix whose product with its transpose reproduces the input, and any non-square, not positive definite or not-a-number input is an error rather than a wrong or NaN factor (the lower triangle is read). Redistributing a value or a bucketed sensitivity onto another grid conserves the total amount and its first moment between grid ends, and formatted numbers read back as the number that was formatted.",
 ["inputs"],"all SPD matrices up to moderate size and near-singular/indefinite ones; all grids and values",
 "Tests use one 3x3 matrix and one grid.",
 [QL+"math/cholescky_factorization.rs",QL+"utils/distribute_value.rs",QL+"utils/number_format.rs"],
 [("cholesky_decomposition",QL+"math/cholescky_factorization.rs"),("distribute_value_on_vector",QL+"utils/distribute_value.rs")],["returned arrays / strings"])
# ---------------------------------------------------------------- quantlib: parameters
p("C27","Discount curves are internally consistent under any shift history",
 "For every zero-rate curve, the discount factor at the valuation date is one, factors by date and by time agree, factors between two dates are the quotient of the two factors, and simple and compounded forward rates are those implied by the factors; factors at the cached node tenors (0D to 100Y) reprice the quoted rates, are linear in time between nodes and an error beyond the last; a forward rate over no time is the finite short rate. Shifting an interval of the curve changes only that interval's nodes by the shift, shifting back restores every factor, and dates before valuation are errors.",
 ["inputs","histories"],"all rate vectors and node dates, all query dates, all sequences of shifts",
 "Tests evaluate one flat or five-point curve at a few dates.",
 [QL+"parameters/zero_curve.rs",QL+"enums.rs"],[("cached discount factors and bump",QL+"parameters/zero_curve.rs")],["discount factors, forward rates"])
p("C28","Discrete dividends deduct exactly the dividends still to be paid",
 "For every dividend list, evaluation date and query date, the deduction ratio equals the product of one minus each dividend yield whose ex-date lies after the evaluation date and not after the query date, is one when none does, and never increases with the query date. Shifting dividend amounts in a date interval (first day excluded, last included) changes exactly the dividends inside it and shifting back restores all ratios, for lists that start before, around or after the evaluation date.",
 ["inputs","histories"],"all dividend lists, spots, evaluation and query dates, shift sequences",
 "Tests use one list entirely in the future.",
 [QL+"parameters/discrete_ratio_dividend.rs"],[("ratio interpolator rebuilt on change",QL+"parameters/discrete_ratio_dividend.rs")],["deduction ratios"])
p("C29","Moving the evaluation date updates every dependent exactly once and reversibly",
 "When the evaluation date moves - by assignment or by adding or subtracting tenors - every registered price and dividend object is brought to the new date: a dividend-paying price is multiplied by one minus each dividend whose ex-date is crossed forward and divided by it when crossed backward. Moving away and back restores all prices and ratios, any route between two dates gives the same final state, and objects not registered are untouched.",
 ["histories"],"all sequences of date moves over all dividend lists",
 "Tests move the date once.",
 [QL+"evaluation_date.rs",QL+"parameters/market_price.rs",QL+"parameters/discrete_ratio_dividend.rs"],[("observer notification",QL+"evaluation_date.rs")],["prices and ratios after each move"])
p("C30","Volatility surfaces return and shift the implied variance they were built from",
 "Total variance equals squared volatility times time for every volatility object; a surface built from a constant volatility reproduces it everywhere, and a shift of a rectangle of the surface changes exactly the grid points inside the half-open rectangle by the shift, with the opposite shift restoring the surface. Lookups inside the grid lie between the surrounding grid values and lookups outside are held flat.",
 ["inputs","histories"],"all surfaces, query points and shift sequences",
 "Tests print a surface and compare a few points.",
 [QL+"parameters/volatility.rs",QL+"parameters/volatilities"],[("surface build and bump",QL+"parameters/volatilities/local_volatility_surface.rs")],["volatility and variance values"])
# ---------------------------------------------------------------- quantlib: pricing
p("C31","Bond values are the discounted sum of the remaining cash flows",
 "For every bond, discount curve and pricing date, the value equals the sum over cash flows paid strictly after the pricing date of amount times discount factor, divided by the factor to the pricing date; the reported cash flows are the schedule's coupons (rate times accrual, at adjusted payment dates) plus full principal once at maturity. The detailed result's total equals the value, and solving for the yield that reproduces a given price and pricing at that yield returns that price.",
 ["inputs","configurations"],"all fixed and floating bonds, frequencies, conventions, curves, pricing dates before/on/after payment dates",
 "Tests price two example bonds.",
 [QL+"pricing_engines/bond_pricer.rs",QL+"pricing_engines/krx_yield_pricer.rs",QL+"instruments/bond.rs",QL+"pricing_engines/npv_result.rs"],
 [("cash-flow generation and discounting",QL+"instruments/bond.rs")],["npv, npv_result, get_cashflows"])
p("C32","Swap values equal the difference of their discounted legs",
 "For every interest-rate, currency or foreign-exchange swap and forward, the value equals the floating leg (converted at the exchange rate) minus the fixed leg, each the discounted sum of its own future cash flows including initial and final exchanges, under the curve of its currency; the detailed result's total equals the value. The reported currency exposures are the leg values in their own currencies and recombine to the value. The kind of a swap follows from its terms, and terms that fit no kind are refused.",
 ["inputs","configurations"],"all swap kinds, rates, notionals, exchange amounts, curves, pricing dates",
 "Tests price one swap per kind and compare to a stored number.",
 [QL+"pricing_engines/plain_swap_pricer.rs",QL+"instruments/plain_swap.rs"],[("leg cash flows and discounting",QL+"pricing_engines/plain_swap_pricer.rs")],["npv, fx_exposure, cashflows"])
p("C33","Futures and forwards are priced by cost of carry",
 "An equity future is worth spot times the ratio of borrowing to collateral discount factors times the dividend deduction ratio at maturity, a currency future is worth spot times the ratio of the two currencies' discount factors, and a treasury-bond future is worth its virtual bond at the average forward yield of its basket; at maturity an equity or currency future equals spot, after it pricing is refused. Detailed totals equal the value, and the exposure of an equity future is the gain over the traded price times the contract unit, that of a treasury-bond future its value times the unit, both in the instrument's currency.",
 ["inputs"],"all spots, curves, dividends, maturities and trade prices",
 "Tests evaluate one parameter set each.",
 [QL+"pricing_engines/futures_pricer.rs",QL+"pricing_engines/fx_futures_pricer.rs",QL+"pricing_engines/ktbf_pricer.rs",QL+"instruments/ktbf.rs"],
 [("carry formulas",QL+"pricing_engines/futures_pricer.rs")],["npv, npv_result, fx_exposure"])
p("C34","European option values are arbitrage-free Black values",
 "For every vanilla option the value equals the Black formula on the carry forward (adjusted for quanto correlation and dividends) discounted on the discount curve, evaluated independently in higher precision. Hence call minus put equals the discounted forward minus strike, values lie between intrinsic and forward bounds, rise with volatility, fall (calls) or rise (puts) with strike, and at expiry equal the payoff.",
 ["inputs"],"all spots, strikes, volatilities, maturities, curves, dividends, quanto settings",
 "Tests check one call and one put against a constant.",
 [QL+"pricing_engines/option_analytic_pricer.rs",QL+"instruments/vanilla_option.rs"],[("Black formula",QL+"pricing_engines/option_analytic_pricer.rs")],["npv"])
p("C35","Engine values and sensitivities equal direct revaluation",
 "For every portfolio, market and configuration, the engine's value of each instrument equals stand-alone pricing times its unit, and its delta, gamma, vega, rho, dividend delta and theta equal the documented finite difference obtained by rebuilding the market with the shifted input and repricing from scratch (delta and gamma from the configured delta bump; volatility surfaces keep their moneyness under a spot move, or their strikes when configured sticky to strike). Bucketed sensitivities are the same differences bucket by bucket, and each is attributed to the right underlying or curve; an underlying without dividend data has no dividend sensitivity. An option settled daily is not discounted and has no discount-curve sensitivity.",
 ["inputs","configurations"],"all portfolios of supported instruments, all bump sizes, tenors and flags",
 "Engine tests run one portfolio and print results.",
 [QL+"pricing_engines/engine.rs",QL+"pricing_engines/pricer_factory.rs",QL+"pricing_engines/match_parameter.rs",QL+"pricing_engines/calculation_configuration.rs",QL+"instrument.rs"],
 [("bump, reprice, restore loops",QL+"pricing_engines/engine.rs")],["calculation results"])
p("C36","Risk measures do not disturb each other or the market state",
 "Whatever set of measures is requested, each measure's number is the same as when it is computed alone, and after a calculation the engine's market - spots, curves, volatilities, dividends, evaluation date - is as it was before, so that revaluing gives the same values. No requested measure is missing and none is reported that was not requested (delta and gamma are calculated as a pair).",
 ["configurations","histories"],"all subsets of measures, all portfolios",
 "Each measure's bump and put-back is tested, if at all, alone; leakage shows only in combinations.",
 [QL+"pricing_engines/engine.rs",QL+"parameters/volatilities/constant_volatility.rs",QL+"parameters/zero_curve.rs",QL+"parameters/discrete_ratio_dividend.rs"],
 [("put-back after each bump",QL+"pricing_engines/engine.rs")],["calculation results across configurations"])
p("C37","Parallel portfolio calculation partitions and merges exactly once",
 "Splitting a portfolio into categories assigns every instrument to exactly one group - the first category it matches - and an instrument matching none is an error naming it. The merged parallel results contain every instrument exactly once, equal to calculating it alone (theta of an instrument maturing within the theta step excepted: it uses the group's shortest maturity), regardless of grouping, order and thread scheduling, and an error in any group is reported.",
 ["schedules","configurations","inputs"],"all portfolios, category lists and thread schedules",
 "The engine tests use one grouping and one schedule.",
 [QL+"pricing_engines/engine_generator.rs"],[("distribute_instruments, rayon map and merge",QL+"pricing_engines/engine_generator.rs")],["merged results"])
p("C38","Serialized market data, instruments and results read back unchanged",
 "Writing any serializable parameter, instrument, data or result object to its text form and reading it back gives an object that behaves identically: equal fields, equal prices, equal curve values, and the same text when written again. Fields a type itself declares unserialized, such as a result's interim cash flows and an evaluation date's observers, are excepted.",
 ["inputs"],"all serializable objects",
 "Tests round-trip a few default objects and compare a field or two.",
 [QL+"data",QL+"parameters",QL+"instruments",QL+"currency.rs",QL+"pricing_engines/calculation_result.rs"],
 [("serde implementations",QL+"data")],["serialized text and re-read objects"])
p("C39","Floating coupons use past fixings exactly when the fixing is known",
 "A floating coupon whose fixing date lies before the pricing date uses the recorded past fixing of that date (compounding daily fixings for overnight indices, on business days), one fixing later uses the forward rate implied by the curve over the index period, and a missing past fixing is replaced, with a printed warning, by the curve's rate from the evaluation date to the end of the index period (refused once that period is over; for overnight compounding by the spot rate over one compounding step). Overnight coupons whose period has begun compound step by step with the fixing of the business day the gap prescribes, those still ahead use the average of the first and last forward rate. The coupon is that rate plus spread times accrual for exactly that period.",
 ["inputs","histories"],"all fixing/pricing date relations, indices, frequencies, gaps in recorded fixings",
 "Tests use one index with complete fixings.",
 [QL+"parameters/rate_index.rs",QL+"parameters/past_price.rs",QL+"instruments/bond.rs",QL+"instruments/plain_swap.rs"],[("coupon amount selection",QL+"parameters/rate_index.rs")],["coupon amounts"])
p("C40","Converted results scale every money amount by the exchange rate",
 "Converting a calculation result to another representation currency multiplies every money-valued measure by the given exchange rate and leaves identity, dates, structure and keys unchanged; converting to the same currency changes nothing, and converting forth and back restores the result; values combined with each other or a number are combined as numbers. Currency codes and currency-pair codes survive text conversion and inversion.",
 ["inputs"],"all results, rates, currencies and pairs",
 "Tests convert one result.",
 [QL+"pricing_engines/calculation_result.rs",QL+"currency.rs"],[("representation_currency_conversion",QL+"pricing_engines/calculation_result.rs")],["converted results"])
p("C41","Portfolio queries select exactly the instruments they describe",
 "Every query of a portfolio returns exactly the instruments matching it, each once and in portfolio order: by type, by underlying, by currency, by curve role, by maturity (up to a date or over it, instruments without maturity counting as over), and the unions over underlyings, types, currencies and curves list each value once - the currencies including those of futures' underlyings and of a swap's floating leg. A query for nothing in the portfolio gives nothing.",
 ["inputs"],"all portfolios and match parameters, all dates",
 "Tests query one small portfolio.",
 [QL+"instrument.rs",QL+"pricing_engines/match_parameter.rs"],[("selection functions",QL+"instrument.rs")],["returned lists"])
p("C42","Simulated paths follow the requested normal law",
 "For every positive definite correlation or covariance matrix and every number of steps the path generator returns one finite row per variable and one column per step, whose columns are independent draws of the normal distribution with mean zero and exactly that covariance between variables; steps, calls and threads share no numbers and are uncorrelated with each other, and a matrix that is no covariance matrix yields no path.",
 ["inputs","schedules"],"all positive definite matrices, all path lengths, all numbers of calls and threads",
 "The one test estimates one correlation of one two-variable matrix with a loose bound.",
 [QL+"pricing_engines/montecarlo/rand_generator.rs",QL+"math/cholescky_factorization.rs"],[("path generator",QL+"pricing_engines/montecarlo/rand_generator.rs")],["returned paths"])
p("C43","Inputs that cannot be priced are refused, never guessed",
 "Whenever a market input that some instrument of the portfolio needs is missing - a spot, discount, forward, collateral, borrowing or currency curve, an exchange rate not quoted directly, inversely or against the won, a volatility, exchange-rate volatility, correlation, fixing history or matching entry - the engine, alone or in parallel groups, refuses with an error naming the input or an instrument using it; it neither substitutes another input, omits the instrument nor panics. The same holds for a used curve, volatility surface or dividend record whose parts do not fit together (values, dates, times or strikes of different number, out of order or empty, surface maturities before the evaluation date). An empty portfolio, an instrument maturing at or before the evaluation date and one of a kind without a pricer are refused, and inputs no instrument uses may be added or missing without changing any result.",
 ["inputs"],"all portfolios, markets and missing or damaged inputs, alone and in parallel groups",
 "Tests only price complete markets; one removed input per role, portfolio and grouping is a combinatorial space.",
 [QL+"pricing_engines/engine.rs",QL+"pricing_engines/pricer_factory.rs",QL+"pricing_engines/match_parameter.rs",QL+"pricing_engines/engine_generator.rs",QL+"instrument.rs",QL+"data"],[("parameter building",QL+"pricing_engines/engine.rs"),("pricer creation",QL+"pricing_engines/pricer_factory.rs")],["calculation outcome, error text, results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
