#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, otext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": otext},
              "why_tests_cant": why, "anchors": a})
ACC = ["base/account.h", "base/account.cc", "base/base.proto"]
BAL = [("base_balance/quote_balance/total_fee", "account ledger", "base/account.h: struct Account")]

p("P01", "Account solvency and all-or-nothing orders",
  "Starting from non-negative balances, no sequence of orders of any type, side, amount and price ever makes the base balance, the quote balance or the accumulated fee negative, and the accumulated fee never decreases. An order that is not executed leaves base balance, quote balance and accumulated fee exactly as they were.",
  ["histories", "inputs", "configurations"], "all account configurations, all order sequences over all well-formed OHLC ticks",
  "Unit tests run a few dozen hand-picked orders on one or two fee schedules; the guarantee quantifies over every sequence, every fee/unit/liquidity configuration and boundary balance.",
  ACC, [("balance checks before any mutation", "base/account.cc: BuyBase, SellBase, BuyAtQuote, SellAtQuote")],
  ["Account after every ExecuteOrder / typed order call", "exchange log rows"], BAL)
p("P02", "Trades conserve value: amount times price plus fee, nothing else",
  "An executed buy increases the base balance by the traded amount and decreases the quote balance by the traded amount times the execution price, rounded up to the quote unit, plus the fee; an executed sell decreases the base balance by the traded amount and increases the quote balance by amount times price, rounded down to the quote unit, minus the fee. The accumulated fee grows by exactly the fee charged, so over any history the balances and the fee total reconcile with the start balances and the executed trades, and rounding never favours the trader.",
  ["histories", "inputs", "configurations"], "all order histories and all configurations starting on the unit grid",
  "Tests compare final balances for single orders; they do not reconcile the ledger over arbitrary histories or fractional amounts where the rounding direction matters.",
  ACC, [("quote amount rounding and balance update", "base/account.cc: BuyBase, SellBase")], ["Account before/after every order"], BAL)
p("P03", "Every order pays exactly the fee schedule of its order type",
  "The fee of an executed order is the larger of the minimum fee and (fixed fee + relative fee x exchanged quote amount) of the fee schedule configured for that order's type (market, stop or limit), rounded up to the quote unit. This holds for buys and sells, whether the order was given as a base or as a quote amount.",
  ["inputs", "configurations"], "all fee schedules (three per account), all order kinds and amounts",
  "Tests use the same fee schedule for several order types or a single relative fee, so a mixed-up schedule or rounding direction in one of twelve order kinds goes unnoticed.",
  ACC, [("GetFee", "base/account.cc: Account::GetFee"), ("fee schedule selection", "base/account.cc: Account::ExecuteOrder")],
  ["change of total fee and of quote balance per order", "GetFee result"], BAL)
p("P04", "Execution price and trigger rules of market, stop and limit orders",
  "A market order trades at liquidity*open + (1-liquidity)*high when buying (low when selling); a stop order trades only if the tick's high reaches the stop price from below (buy) or its low reaches it from above (sell), at liquidity*worse(stop, open) + (1-liquidity)*high (low); a limit order trades only if the tick's low (buy) or high (sell) reaches the limit price, and then exactly at the limit price. Consequently no order trades at a price more favourable than these rules or outside the conditions of its trigger; touching a price exactly counts as reaching it.",
  ["inputs", "configurations"], "all ticks with low<=open,close<=high, all stop/limit prices including equality and gaps through the price, all liquidities in [0,1]",
  "Tests fix one tick and a handful of prices; equality boundaries, gaps through the stop price and intermediate liquidity combine into cases nobody enumerates by hand.",
  ACC, [("price getters", "base/account.cc: GetMarketBuyPrice .. GetStopSellPrice"), ("triggers", "base/account.cc: StopBuy .. LimitSellAtQuote")],
  ["traded quote/base deltas per order", "price getters"], BAL)
p("P05", "An order fills exactly when it is triggered and affordable",
  "A triggered order is executed if and only if its rounded (and, for limit orders, volume-capped) amount is at least one base unit and positive, the account can cover it (quote cost plus fee for buys, base amount for sells), a sale leaves at least one quote unit after the fee, and for orders given as a quote amount that amount is at least one quote unit and, for buys, within the quote balance and larger than the fee. The executed base amount is the requested amount rounded to the base unit, or, for quote-amount orders, the largest base amount on the grid that the amount net of (plus, for sells) the fee allows.",
  ["inputs", "configurations", "histories"], "all orders, account states and configurations including exact-equality affordability",
  "The accept/reject boundary is a conjunction of inequalities over five configuration values; tests sample points far from most boundaries.",
  ACC, [("accept/reject conditions", "base/account.cc: BuyBase, BuyAtQuote, SellBase, SellAtQuote")], ["return value of ExecuteOrder and balances"], BAL)
p("P06", "Quote budgets and traded-volume caps are never exceeded",
  "A buy given as a quote amount never reduces the quote balance by more than that amount (rounded to the quote unit), and a sell given as a quote amount never increases it by more; an order given as a base amount never trades more than that amount rounded to the base unit. When a volume ratio is configured, a limit order never trades more base than ratio x tick volume, and less than the order amount only because of this cap.",
  ["inputs", "configurations"], "all amounts, fee schedules with relative fee <= 1, volumes and ratios",
  "The bound must hold for every combination of fee, price and rounding; tests check exact values for a few combinations.",
  ACC, [("GetMaxBaseAmount", "base/account.cc: GetMaxBaseAmount, Limit*"), ("fee-net division", "base/account.cc: BuyAtQuote, SellAtQuote")],
  ["balance deltas per order"], BAL)
p("P07", "Balances stay on the unit grid and never drift",
  "With a non-zero base (quote) unit, after every executed order the base balance (the quote balance and accumulated fee) is a whole multiple of that unit up to the precision of the number format, for any number of operations. Repeated trading accumulates no rounding drift: the balances equal the integer ledger kept in whole units.",
  ["histories", "configurations"], "arbitrarily long order sequences, decimal and binary units",
  "Tests execute a handful of orders; drift appears only after long histories on decimal units.",
  ACC, [("Round on every balance update", "base/account.cc: BuyBase, SellBase")], ["Account after every order"], BAL)
EV = ["eval/eval.h", "eval/eval.cc"]
p("P08", "Order lifecycle: only later ticks, in order, at most once, one batch alive",
  "An order emitted by the trader on one tick can only be executed on later ticks, the orders of one emission are tried in emission order, and each emitted order is executed at most once. Orders not executed stay active over zero-volume (gap) ticks and are dropped as soon as the trader is updated again, so at no time are orders of two emissions active.",
  ["histories", "inputs"], "all tick histories with arbitrary runs of gap ticks and all order scripts",
  "Tests cover a few order scripts with single gaps; the lifecycle is a state machine over histories (multi-gap retries executed an order repeatedly before it was repaired).",
  EV, [("execution loop", "eval/eval.cc: ExecuteTrader")], ["exchange log rows", "account seen by the trader"],
  [("orders", "orders active on the exchange", "eval/eval.cc: ExecuteTrader")])
p("P09", "Trader is updated exactly once per traded tick with true balances",
  "The trader is updated exactly once for every tick with non-zero volume, in chronological order and never for a zero-volume tick, with that tick's prices unchanged. The balances handed to it are the account's balances after all orders of that tick were executed, and its list for new orders is empty.",
  ["histories", "inputs"], "all tick histories and order scripts",
  "Tests check final results and few update counts; the feed must be right at every step of every history.",
  EV, [("trader.Update call", "eval/eval.cc: ExecuteTrader")], ["arguments of Trader::Update", "exchange log rows"])
p("P10", "No look-ahead: the past never depends on the future",
  "Everything that happens up to a tick (trader updates, emitted and executed orders, balances, log rows) is unaffected by the ticks and side inputs that come after that tick, bit for bit. This also holds per evaluation period: a period's result does not depend on ticks outside the period.",
  ["histories", "inputs"], "all pairs of histories sharing a prefix, for the shipped traders and arbitrary traders",
  "It is a relation between two runs (a hyperproperty); a unit test observes one run.",
  EV + ["base/side_input.cc", "traders/stop_trader.cc", "traders/rebalancing_trader.cc"], [("strictly sequential loop", "eval/eval.cc: ExecuteTrader")],
  ["event sequences of two runs"])
p("P11", "Side input delivered is the latest one at or before the tick, with its age",
  "On every update the trader receives the signals of the latest side-input record whose timestamp is not after the tick, followed by that record's age in seconds, and nothing before the first record. Looking a timestamp up with a hint of the previous position returns the same index as looking it up without a hint, and the index and signals always belong to the latest record not after the timestamp.",
  ["inputs", "histories"], "all side histories (any spacing, including several records per tick and none), all tick times, all valid hints",
  "Tests use one small table; dense records, exact hits and long hint jumps are separate code paths.",
  ["base/side_input.h", "base/side_input.cc", "eval/eval.cc"], [("upper_bound and hinted lookup", "base/side_input.cc: GetSideInputIndex"), ("age", "eval/eval.cc: ExecuteTrader")],
  ["signals passed to Trader::Update", "SideInput getters"])
p("P12", "The execution report matches what happened",
  "The report's start/end balances are the configured start balances and the final account balances, its start/end prices the first and last tick's closing prices, its values balance + price x base, its order count the number of executed orders and its fee the sum of fees charged. An empty history yields an empty report and no trader update.",
  ["histories", "inputs"], "all histories and scripts, including gap ticks at either end",
  "Tests check a few runs; every field must reconcile with the event history of every run.",
  EV + ["eval/eval.proto"], [("result assembly", "eval/eval.cc: ExecuteTrader")], ["ExecutionResult", "event history"])
p("P13", "Logs are complete, ordered, and do not influence the simulation",
  "The exchange log has, for every tick in order, one row with the account before that tick's executions followed by one row per executed order with the order and the account right after it; the trader log has one state row per trader update. In CSV form the rows carry exactly these values in the documented columns, and running with or without loggers, or with or without volatility computation, gives identical simulations.",
  ["histories", "configurations"], "all histories, scripts and logger combinations (none, exchange only, trader only, both)",
  "Tests compare a few CSV lines; completeness and non-interference are statements over all runs and pairs of runs.",
  EV + ["logging/csv_logger.h", "logging/csv_logger.cc"], [("logger calls", "eval/eval.cc: ExecuteTrader"), ("CSV formatting", "logging/csv_logger.cc")], ["Logger calls", "CSV streams"])
p("P14", "Evaluation windows are exactly the configured calendar periods",
  "With a period length of n months, evaluation covers exactly the periods [start + k months, start + k months + n months) for k = 0, 1, 2, ... whose end is not after the configured end, skipping those without ticks, each fed with exactly the ticks inside its interval; without a period length there is one period [start, end). The evaluation always terminates, also when no tick falls into a period.",
  ["configurations", "inputs"], "all start/end times (including month ends and leap years), period lengths, and tick sets (including empty)",
  "Tests use a few aligned windows; termination and window arithmetic quantify over all calendars and tick sets (an empty single period used to hang).",
  EV + ["util/time.cc", "base/base.h"], [("period loop", "eval/eval.cc: EvaluateTrader")], ["EvaluationResult periods", "ticks seen by traders"])
p("P15", "Periods are isolated and the aggregates are their averages",
  "Each evaluation period runs a fresh trader on a fresh account, so its result equals that of evaluating the period alone. Final gain and base gain are end/start ratios of the period's values and prices, the score is the geometric mean over periods of gain over base gain, the other aggregates are arithmetic means over periods, and the result carries the trader name and the configurations.",
  ["histories", "configurations"], "all multi-period evaluations, stateful traders",
  "Leaking state between periods shows only with stateful traders over several overlapping periods; tests assert few aggregates.",
  EV, [("NewTrader and ExecuteTrader per period", "eval/eval.cc: EvaluateTrader"), ("averages", "eval/eval.cc: GetAverage, GetGeometricAverage")], ["EvaluationResult"])
p("P16", "Batch evaluation equals one-by-one evaluation under every schedule",
  "Evaluating a batch of traders returns one result per trader in the order given, each identical to evaluating that trader alone, no matter how the evaluations are scheduled or interleaved.",
  ["schedules", "configurations"], "all interleavings of the parallel evaluations, all batch sizes and mixes",
  "Tests run one batch under whatever schedule the OS picks and compare few fields.",
  EV, [("std::async per trader, futures collected in order", "eval/eval.cc: EvaluateBatchOfTraders")], ["vector of EvaluationResult"])
p("P17", "Rebalancing trader steers towards its allocation band",
  "On every update, if the base share of the portfolio is above (below) the band alpha*(1+eps) (alpha*(1-eps)) the trader emits exactly one market sell (buy) whose execution at the closing price restores the share to alpha; inside the band it emits no market order but, holding more than a millionth of both currencies, one limit sell above (unless the upper edge is not below one) and one limit buy below the closing price, each placed at the price where the share reaches that edge of the band and sized to return it to alpha there, and omitted if that price is a hundred times away or more. Amounts and prices are positive, updates are memoryless (the orders depend only on the tick, balances and configuration), and the reported state shows the last time, balances and close.",
  ["inputs", "configurations", "histories"], "all prices, balances, alpha in (0,1), eps in (0,1)",
  "Tests pin a few numeric examples; the steering claims quantify over all portfolios.",
  ["traders/rebalancing_trader.h", "traders/rebalancing_trader.cc"], [("Update", "traders/rebalancing_trader.cc")], ["orders emitted by Update", "internal state"])
p("P18", "Stop trader: one protective stop order, ratcheting only in its favour",
  "On every update the trader emits exactly one stop order: selling its whole base balance when base is worth at least the quote balance, else buying with its whole quote balance. While the side stays the same and updates come less than an hour apart, the stop price never moves away from the market (it never falls for sells and never rises for buys), never crosses the move margin by being moved, and moves by at most the configured rate per day; on a change of side or a gap of an hour or more it is reset to the configured margin from the closing price. The reported state shows the last time, balances, close, side and stop price.",
  ["histories", "configurations"], "all price/balance/time sequences and margins",
  "The ratchet is history dependent; tests run one short series.",
  ["traders/stop_trader.h", "traders/stop_trader.cc"], [("UpdateStopOrderPrice", "traders/stop_trader.cc"), ("EmitStopOrder", "traders/stop_trader.cc")], ["orders emitted by Update", "internal state"],
  [("stop_order_price_", "current stop price", "traders/stop_trader.h")])
p("P19", "Resampling is a faithful regular partition of the price history",
  "Resampling returns ticks at consecutive multiples of the sampling interval from the first to the last record's interval without holes; a tick with records has the first price as open, the last as close, the extremes as high/low and the summed volume of exactly the records in its interval. An interval without records becomes a zero-volume tick at the previous close.",
  ["inputs"], "all chronologically sorted price histories and sampling intervals",
  "Tests use short histories; partition completeness, boundary timestamps and multi-interval gaps quantify over all inputs.",
  ["base/history.h", "base/history.cc"], [("Resample", "base/history.cc")], ["returned OHLC history"])
p("P20", "Outlier removal keeps clean data and drops exactly non-persistent jumps",
  "Removing outliers returns an order-preserving subsequence of the history that never alters a record, and the reported outlier indices are exactly the removed positions. A record is removed if and only if its price or volume is invalid, or it jumps by more than the allowed deviation (scaled with the square root of the elapsed minutes) against the last kept record and fewer than three of the next ten valid records confirm the jump; the printed context covers exactly the requested neighbourhood of the last outliers.",
  ["inputs", "configurations"], "all price histories and deviation settings",
  "The decision depends on up to ten records of look-ahead and on previous decisions; tests contain a few spikes.",
  ["base/history.h", "base/history.cc"], [("RemoveOutliers", "base/history.cc"), ("GetOutlierIndicesWithContext", "base/history.cc")], ["returned history and indices"])
p("P21", "Reported gaps are the n longest, chronologically",
  "The gap report contains the n longest distances between consecutive records (all of them if there are fewer), including the distances to the optional interval start and end, never more than n, in chronological order; every omitted gap is at most as long as every reported one, and of equally long gaps the earlier ones are reported.",
  ["inputs", "configurations"], "all histories (also unsorted ties and duplicates), all n including 0, optional bounds",
  "Tests check one history for two values of n.",
  ["base/history.h", "base/history.cc"], [("GetPriceHistoryGaps", "base/history.cc")], ["returned gaps"])
p("P22", "Time-range selection returns exactly the records of the interval",
  "Selecting [start, end) from a sorted history returns exactly the contiguous records with start <= timestamp < end, in order, where a non-positive bound means unbounded; an empty or inverted interval yields an empty selection. Selection by reference and by copy agree, for price, OHLC and side-input histories.",
  ["inputs"], "all sorted histories (with duplicate timestamps) and all bounds",
  "Boundary equality, duplicates and inverted ranges (which used to crash) are combinations tests only sample.",
  ["base/base.h", "base/history.cc"], [("HistorySubset", "base/base.h"), ("HistorySubsetCopy", "base/base.h")], ["returned ranges"])
p("P23", "Conversion imports exactly the valid records or fails loudly",
  "Converting a CSV or binary input writes exactly the records of the requested time range, in order and with their values, and the OHLC output of a price input is the resampling of its outlier-free records. If a line in range before the end cannot be parsed or violates the order, price, volume or signal-count rules, or the input selection is ambiguous or missing, a time flag cannot be parsed, the sampling rate is not positive or a file cannot be opened, the tool exits with an error and writes no output file.",
  ["inputs", "configurations"], "all input files and flag combinations",
  "There are no tests of the converter at all.",
  ["convert.cc", "base/history.cc", "util/proto.h"], [("Read*FromCsvFile / ReadHistoryFromDelimitedProtoFile", "convert.cc"), ("main", "convert.cc")], ["exit status, stdout, output files of the convert tool"])
p("P24", "Stored histories read back identically; damage is detected or a prefix",
  "Writing a sequence of records and reading it back yields the same records in the same order, compressed or not, also when reading stops early at the reader's request or aborts with the reader's error. From a truncated file the reader delivers exactly the records that are complete in what is left and reports an error unless the data end at a record boundary; a damaged file (header, compressed data, checksum, record lengths) is never read to its end with success unless its records are intact. A write that does not reach the file completely, and a file that cannot be opened, is reported as an error.",
  ["inputs", "crash_points", "fault_sequences"], "all record sequences, both compression modes, every truncation point, failing devices",
  "Tests round-trip a few messages; truncation points and write faults are not tested.",
  ["util/proto.h"], [("ReadDelimitedMessagesFromIStream", "util/proto.h"), ("WriteDelimitedMessagesToOStream/File", "util/proto.h")], ["statuses and messages returned"])
p("P25", "The trader tool evaluates what its flags say",
  "The trader tool's reported periods, gains, scores, volatilities and logs equal those of evaluating the selected trader with the account, time range and data given by its flags, over exactly the selected records. Batch mode prints at most the twenty best traders in descending score; unreadable or invalid input, unparsable times, unknown traders, invalid balances, unwritable logs or logging combined with multi-period evaluation end in an error exit, never in a crash.",
  ["configurations", "inputs"], "all flag combinations and data files",
  "There are no tests of the command-line tool.",
  ["trader.cc", "traders/trader_factory.cc"], [("GetAccountConfig, ReadHistory, main", "trader.cc")], ["stdout, exit status, log files of the trader tool"])
p("P26", "Tick aggregation equals resampling of the tick stream",
  "After any sequence of ticks, the aggregated window holds the last n consecutive periods of the stream, each with first open, last close, extreme high/low and summed volume of its ticks, and flat zero-volume periods at the previous close for skipped periods. Each change is announced by exactly one matching notification (updated, added, or added-and-removed) carrying the true old and new periods.",
  ["histories", "configurations"], "all tick streams, window lengths and period sizes",
  "Tests cover short streams; gaps longer than the window and partial updates interact.",
  ["indicators/last_n_ohlc_ticks.h", "indicators/last_n_ohlc_ticks.cc"], [("Update", "indicators/last_n_ohlc_ticks.cc")], ["GetLastNOhlcTicks, callbacks"])
p("P27", "Sliding-window minimum, maximum, mean and variance match the window",
  "After any sequence of additions and corrections of the latest value, the reported minimum, maximum, mean and variance are those of the last window-size values (of all values when the window is unlimited), with the reported window and value counts; the variance and standard deviation are never negative or undefined.",
  ["histories", "configurations"], "all value sequences, window sizes (including 1 and unlimited) and update patterns",
  "Incremental structures (monotone deque, running sums) fail only on particular orders of additions and corrections.",
  ["indicators/util.h", "indicators/util.cc"], [("SlidingWindowMinimum, SlidingWindowMeanAndVariance", "indicators/util.cc")], ["getters after every operation"])
p("P28", "SMA, EMA and MACD equal their definitions on aggregated closes",
  "After any tick stream, the simple moving average is the mean of the closes of the last n aggregated periods, the exponential moving averages follow ema = w*close + (1-w)*previous-period ema starting at the first close, and the MACD series, signal and divergence are the corresponding differences and smoothing. Ticks inside a period only replace the current period's contribution and skipped periods count as flat periods.",
  ["histories", "configurations"], "all tick streams, lengths and period sizes",
  "Tests check one example stream; intra-period updates and gaps interact with the recursion.",
  ["indicators/simple_moving_average.cc", "indicators/exponential_moving_average.cc", "indicators/moving_average_convergence_divergence.cc", "indicators/util.cc"],
  [("callbacks", "indicators/*.cc")], ["getters after every update"])
p("P29", "RSI and stochastic oscillator equal their definitions and stay in range",
  "After any tick stream, RSI and the stochastic %K, fast %D and slow %D equal their definitions over the aggregated periods (smoothed up and down moves; position of the close in the window's range and its three-period averages) and lie between 0 and 100 (up to rounding). Without price movement (below one millionth) they give the neutral value 50.",
  ["histories", "configurations"], "all tick streams, lengths and period sizes",
  "Same as P28: history-dependent recursion tested on one stream.",
  ["indicators/relative_strength_index.cc", "indicators/stochastic_oscillator.cc", "indicators/util.cc"], [("callbacks", "indicators/*.cc")], ["getters after every update"])
p("P30", "Volatility is the deviation of log returns and always a valid number",
  "After any stream of ticks and balances, volatility is the standard deviation of the logarithmic returns of the portfolio value between consecutive aggregated periods over the window (all periods if unlimited), never negative or undefined while the portfolio has a positive value; skipped periods are valued at the previous close. The report's annual volatilities are the daily ones times the square root of 365, for holding the base currency and for the trader's portfolio.",
  ["histories", "configurations"], "all tick and balance streams, windows and period sizes",
  "Tests check one stream; rounding made the value undefined on others.",
  ["indicators/volatility.cc", "indicators/util.cc", "eval/eval.cc"], [("Volatility", "indicators/volatility.cc")], ["GetVolatility", "ExecutionResult volatilities"])
p("P31", "Calendar: parsing, formatting and month arithmetic agree",
  "A time given in any accepted format (RFC3339, date with optional time and offset) denotes that civil instant, formatting a time in UTC and parsing it back is the identity, and malformed or out-of-range input is rejected with an error. Adding months adds to the civil month and keeps day and time of day, with days beyond the month's end carried into the next month, for any number of months and any year.",
  ["inputs"], "all civil times, offsets, month counts of either sign",
  "Tests contain a few dates; leap years, month ends and offsets form a large space.",
  ["util/time.h", "util/time.cc"], [("ParseTime, FormatTimeUTC, AddMonthsToTime", "util/time.cc")], ["returned values"])
p("P32", "The conversion report tells the truth about the data",
  "After a successful conversion the tool has reported the number of imported records, the top-n largest gaps of the price history in chronological order with their length, the number of removed outliers, the last-n outliers with their five neighbours on each side (time, price, volume, marked whether removed), and the numbers of records resampled and ticks produced, all equal to those of the imported data.",
  ["inputs", "configurations"], "all input files and flag values",
  "There are no tests of the converter; gap and outlier reports depend on the whole history.",
  ["convert.cc", "base/history.cc", "util/time.cc"], [("PrintPriceHistoryGaps, PrintOutliersWithContext, DurationToString", "convert.cc"), ("GetPriceHistoryGaps, GetOutlierIndicesWithContext", "base/history.cc")], ["stdout of the convert tool"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
