"""Which check family decides which property."""
_TRUST = ("Bounded: holds for every state of the specification's finite world and for every recorded execution of the real "
          "code (enumerated from the specification and seeded random). Trusts TLC, the driver's recording and the "
          "mapping from integers to floats (exact binary fractions, and decimals with an error allowance).")
INFO = {
    "ledger": {
        "technique": "TLA+ specification Ledger (TLC exhaustive) + every transition of its world replayed into the real Account and "
                     "recorded executions validated by trace specification LedgerTrace (TLC)",
        "note": _TRUST},
    "exchange": {
        "technique": "TLA+ specification Exchange (TLC exhaustive) + its behaviours replayed through ExecuteTrader and recorded simulations, "
                     "look-ups, logs and run pairs validated by trace specification ExchangeTrace (TLC)",
        "note": _TRUST},
    "evaluate": {
        "technique": "TLA+ specification Evaluate over the calendar Civil (TLC exhaustive) + recorded evaluations validated by trace "
                     "specification EvaluateTrace (TLC)",
        "note": _TRUST},
    "batch": {
        "technique": "TLA+ specification Batch (TLC exhaustive over schedules, with liveness) + its schedules enforced on the real batch "
                     "evaluation and validated by trace specification BatchTrace (TLC)",
        "note": _TRUST},
    "traders": {
        "technique": "TLA+ specifications RebalanceMC and Stop over exact arithmetic Dyadic (TLC exhaustive, Stop with liveness) + recorded "
                     "updates of the real traders validated by trace specification TradersTrace (TLC)",
        "note": _TRUST},
    "history": {
        "technique": "TLA+ specifications HistoryMC (streaming algorithms refine the definitions in HistoryOps) and Outliers (TLC exhaustive) + "
                     "their histories and random ones replayed into the real functions and validated by trace specification HistoryTrace (TLC)",
        "note": _TRUST},
    "indicators": {
        "technique": "TLA+ specifications AggregateMC, WindowMC and IndicatorMC (incremental = definition over whole streams, TLC exhaustive) + recorded "
                     "indicator runs validated over exact arithmetic by trace specification IndicatorsTrace (TLC)",
        "note": _TRUST},
    "storage": {
        "technique": "TLA+ specification Storage (writer, compressor, device, crash, damage, reader; TLC exhaustive with liveness) + its record sequences "
                     "written and read by the real code with every cut, full device and flipped bit, validated by trace specification StorageTrace (TLC)",
        "note": _TRUST},
    "convert": {
        "technique": "TLA+ specification Convert (whole tool: flags, reading, writing, failures; TLC exhaustive with liveness) + its line sequences and random "
                     "inputs run through the real convert binary and validated by trace specifications ConvertTrace and HistoryTrace (TLC)",
        "note": _TRUST},
    "trader": {
        "technique": "TLA+ specification TraderTool (whole tool: flags, loading, checking, evaluation, logs, batch ranking; TLC exhaustive with liveness) + its "
                     "behaviours and random inputs run through the real trader binary and validated by trace specification TraderToolTrace (TLC)",
        "note": _TRUST},
    "time": {
        "technique": "TLA+ specification Civil (calendar walk checked by TLC) + recorded parse/format/month-arithmetic calls validated by "
                     "trace specification CivilTrace (TLC)",
        "note": _TRUST},
}
FAMILY = {}
for fam, props in {
    "ledger": "P01 P02 P03 P04 P05 P06 P07",
    "exchange": "P08 P09 P10 P11 P12 P13",
    "evaluate": "P14 P15",
    "batch": "P16",
    "traders": "P17 P18",
    "history": "P19 P20 P21 P22",
    "convert": "P23 P32",
    "storage": "P24",
    "trader": "P25",
    "indicators": "P26 P27 P28 P29 P30",
    "time": "P31",
}.items():
    for p in props.split():
        FAMILY[p] = fam
