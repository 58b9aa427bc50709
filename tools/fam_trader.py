"""The trader tool (P25): TraderTool bound to the trader binary."""
import gzip, itertools, json, math, os, re, shutil, subprocess, zlib
import concurrent.futures as cf
import vlib
from fam_convert import bad_values, bound, clamp, encode, instant, mev, DEFAULTS, STALE
from fam_evaluate import add_months
from fam_time import fmt as timetext, rand_fields, garbage
from num import f32, me, txt

HARNESS = os.path.join(vlib.VERIF, "harness", "tool.cc")
D = 86400
LOGFLAG = {"exchange": "output_exchange_log_file", "trader": "output_trader_log_file"}
DEFVAL = {"base": 1.0, "quote": 0.0, "liq": .5, "vol": .5}
FLAG = {"base": "start_base_balance", "quote": "start_quote_balance", "liq": "market_liquidity", "vol": "max_volume_ratio"}


def digest(b):
    return zlib.crc32(b) & 0x3fffffff


# ------------------------------------------------------------------ running --
def stored(c, which):
    h = c[which]
    data = b"".join(encode(which, c["T0"] + x["t"], x["v"]) for x in h["recs"]) + bytes(h.get("tail", []))
    data = gzip.compress(data, h.get("level", 6), mtime=0)
    if h.get("crc"):
        data = data[:-8] + bytes([data[-8] ^ 1]) + data[-7:]
    return data


PERIOD = re.compile(r"^\[(.*) - (.*)\): +(\S+)% +(\S+)% +(\S+) +(\S+) +(\S+)$")
BATCH = re.compile(r"^(\S+\[[^\]]*\]): (\S+)$")


def fixed(s):
    m = re.match(r"^(-?)(\d+)\.(\d+)$", s)
    if not m:
        return {"fin": False, "n": 0}
    n = int(m.group(2) + m.group(3))
    return {"fin": True, "n": clamp(-n if m.group(1) else n)}


def report(so):
    r = {"name": "", "periods": [], "batch": [], "loaded": []}
    for x in so.split("\n"):
        m = PERIOD.match(x)
        if m:
            r["periods"].append(dict(zip(["s", "e"], m.groups())))
            r["periods"][-1].update({k: fixed(v) for k, v in zip(["g", "bg", "sc", "tv", "bv"], m.groups()[2:])})
        m = BATCH.match(x)
        if m:
            r["batch"].append({"name": m.group(1), "score": fixed(m.group(2))})
        m = re.match(r"^(\S+) evaluation:$", x)
        if m:
            r["name"] = m.group(1)
        m = re.match(r"^- Loaded (\d+) records", x)
        if m:
            r["loaded"].append({"loaded": int(m.group(1)), "selected": -1, "range": []})
        m = re.match(r"^- Selected (\d+) records within the time period: \[(.*) - (.*)\)$", x)
        if m and r["loaded"]:
            r["loaded"][-1].update(selected=int(m.group(1)), range=[m.group(2), m.group(3)])
    return r


def run_tool(exe, c, n):
    d = os.path.join(vlib.scratch(), "trader-%s" % n)
    os.makedirs(d)
    args = [exe]
    for k, flag in (("ohlc", "input_ohlc_history_delimited_proto_file"), ("side", "input_side_history_delimited_proto_file")):
        h = c[k]
        if not h["given"]:
            continue
        if h.get("missing"):
            args.append("--%s=%s" % (flag, h["missing"]))
        else:
            open(os.path.join(d, k), "wb").write(stored(c, k))
            args.append("--%s=%s" % (flag, k))
    for k, how in c["logs"].items():
        name = "log-" + k
        if how == "stale":
            open(os.path.join(d, name), "wb").write(STALE * 2000)
        elif how == "nodir":
            name = "none/" + name
        elif how == "isdir":
            os.makedirs(os.path.join(d, name))
        elif how == "full":
            name = "/dev/full"
        args.append("--%s=%s" % (LOGFLAG[k], name))
    if c["trader"] is not None:
        args.append("--trader=" + c["trader"])
    if c["months"] is not None:
        args.append("--evaluation_period_months=%d" % c["months"])
    if c["batch"] is not None:
        args.append("--evaluate_batch=%s" % ("true" if c["batch"] else "false"))
    for k, flag in FLAG.items():
        if c[k] is not None:
            args.append("--%s=%r" % (flag, c[k]))
    for k, flag in (("start", "start_time"), ("stop", "end_time")):
        if c[k] is not None:
            args.append("--%s=%s" % (flag, c[k]["text"]))
    obs = {"crash": "", "code": 0, "files": {}}
    try:
        p = subprocess.run(args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                           env={**os.environ, "TZ": c["tz"]})
        obs["code"] = p.returncode
        obs["stdout"] = p.stdout.decode("utf-8", "replace")
        if p.returncode < 0:
            obs["crash"] = "signal %d %s" % (-p.returncode, p.stderr[-300:].decode("utf-8", "replace"))
    except subprocess.TimeoutExpired:
        obs["crash"] = "timeout"
    for k in LOGFLAG:
        f, how = os.path.join(d, "log-" + k), c["logs"].get(k)
        st, dig = "untouched", 0
        if how in ("new", "stale") and os.path.exists(f):
            b = open(f, "rb").read()
            if not (how == "stale" and b == STALE * 2000):
                st, dig = "file", digest(b)
        obs["files"][k] = {"st": st, "dig": dig}
    shutil.rmtree(d)
    return obs


def val(c, k):
    return DEFVAL[k] if c[k] is None else c[k]


def trader(c):
    return "stop" if c["trader"] is None else c["trader"]


def selected(c, which):
    """Indices of the records in range (a claim that TraderToolTrace verifies)."""
    lo, hi = c["lo"], c["hi"]
    return [i for i, x in enumerate(c[which]["recs"]) if (lo is None or x["t"] >= lo) and (hi is None or x["t"] < hi)]


def oracle_text(c):
    s, e = [instant((c[k] or {"f": DEFAULTS[k]})["f"]) for k in ("start", "stop")]
    out = ["cfg " + " ".join(txt(val(c, k)) for k in ("base", "quote", "liq", "vol")),
           "eval %d %d %d %d %s %d" % (c["T0"], s, e, c["months"] or 0, trader(c), 1 if c["batch"] else 0)]
    for i in selected(c, "ohlc"):
        x = c["ohlc"]["recs"][i]
        out.append("t %d %s" % (c["T0"] + x["t"], " ".join(txt(v) for v in x["v"])))
    if c["side"]["given"]:
        out.append("side")
        for i in selected(c, "side"):
            x = c["side"]["recs"][i]
            out.append("s %d %d %s" % (c["T0"] + x["t"], len(x["v"]), " ".join(txt(v) for v in x["v"])))
    return "\n".join(out)


WANT = {"no": "no", "new": "file", "stale": "file", "nodir": "unopenable", "isdir": "unopenable", "full": "full"}
NOTHING = {"name": "", "periods": [], "batch": [], "exchange": {"size": 0, "dig": 0}, "trader": {"size": 0, "dig": 0}}


def merge(c, obs, want):
    w = dict(NOTHING)
    if want is not None:
        w.update({k: want[k] for k in ("name", "periods", "batch") if k in want})
        for k, f in (("exchange", "xlog"), ("trader", "tlog")):
            if f in want:
                b = want[f].encode()
                w[k] = {"size": len(b), "dig": digest(b)}
    tf = lambda k: {"given": c[k] is not None, "f": c[k]["f"] if c[k] else [], "default": DEFAULTS[k]}
    hist = lambda k: {"given": c[k]["given"], "readable": c[k]["given"] and not any(c[k].get(x) for x in ("missing", "crc", "tail")),
                      "recs": [{"t": clamp(x["t"]), "pos": x["t"] + c["T0"] > 0, "n": len(x["v"]), "v": [mev(f32(v) if math.isfinite(v) else v) for v in x["v"]] if k == "ohlc" else []}
                               for x in c[k]["recs"]]}
    r = report(obs.get("stdout", ""))
    r["files"] = obs["files"]
    return {"id": c["id"], "crash": obs["crash"], "code": obs["code"], "d0": c["T0"] // D, "trader": trader(c), "months": c["months"] or 0,
            "batch": bool(c["batch"]), "base": mev(f32(val(c, "base"))), "quote": mev(f32(val(c, "quote"))), "start": tf("start"), "stop": tf("stop"),
            "logs": {k: {"want": WANT[c["logs"].get(k, "no")]} for k in LOGFLAG}, "ohlc": hist("ohlc"), "side": hist("side"),
            "sel": [i + 1 for i in selected(c, "ohlc")] if want is not None else [], "want": w, "got": r,
            "args": {k: c[k]["text"] for k in ("start", "stop") if c[k]}}


def valid(v):
    return all(math.isfinite(x) for x in v) and 0 < v[2] <= min(v[0], v[3]) and max(v[0], v[3]) <= v[1] and v[4] >= 0


def plain(c):
    """Nothing keeps the oracle from evaluating the case."""
    ok = lambda h, k: all(x["t"] + c["T0"] > 0 for x in h) and all(a["t"] < b["t"] for a, b in zip(h, h[1:]))
    o, s = [[c[k]["recs"][i] for i in selected(c, k)] for k in ("ohlc", "side")]
    return (c["readable"] and trader(c) in ("stop", "rebalancing") and f32(val(c, "base")) >= 0 and f32(val(c, "quote")) >= 0
            and f32(val(c, "base")) + f32(val(c, "quote")) > 0 and ok(o, "ohlc") and ok(s, "side") and all(len(x["v"]) == len(s[0]["v"]) for x in s)
            and all(valid(x["v"]) for x in o) and instant((c["start"] or {"f": DEFAULTS["start"]})["f"] or [1, 0, 0, 0]) is not None
            and instant((c["stop"] or {"f": DEFAULTS["stop"]})["f"] or [1, 0, 0, 0]) is not None)


# --------------------------------------------------------------- generation --
def blank_case(rng, cid):
    return {"id": cid, "T0": 17167 * D, "trader": rng.choice([None, "stop", "rebalancing", "rebalancing"]), "months": None, "batch": rng.choice([None, None, False]),
            "base": None, "quote": None, "liq": None, "vol": None, "start": None, "stop": None, "lo": None, "hi": None, "logs": {},
            "ohlc": {"given": True, "recs": [], "level": rng.choice([0, 6])}, "side": {"given": False, "recs": [], "level": 6},
            "readable": True, "tz": rng.choice(vlib.ZONES)}


def account(rng, c, price):
    b, q = rng.choice([1.0, .5, 10.0, 0.0, 123.456, 2.0]), rng.choice([0.0, 1000.0, 55.5, price, 10 * price])
    if b + q == 0:
        b = 1.0
    c["base"], c["quote"] = (b, q) if rng.random() < .8 else (b or 1.0, None)
    if rng.random() < .4:
        c["liq"] = rng.choice([0.0, 1.0, .25, .9])
    if rng.random() < .4:
        c["vol"] = rng.choice([0.0, .01, .1, 1.0])


def set_range(rng, c, lo, hi, default=.2):
    """lo, hi: seconds after T0, or None (unbounded)."""
    for k, x in (("start", lo), ("stop", hi)):
        if x is None:
            f = rng.choice([[1, 1970, 1, 1, 0, 0, 0, 0], [3, 1969, 12, 31, 23, 59, 59, 0], [4, 1970, 1, 1, 1, 0, 0, 60], [1, 1960, 6, 1, 0, 0, 0, 0]])
            c[k] = {"f": f, "text": timetext(f)}
        else:
            c[k] = bound(rng, c["T0"] + x)
        if rng.random() < default:
            c[k] = None
        at = instant(c[k]["f"] if c[k] else DEFAULTS[k])
        c["lo" if k == "start" else "hi"] = None if at <= 0 else at - c["T0"]


def tick(rng, t, p):
    o, cl = f32(p * rng.uniform(.97, 1.03)), f32(p)
    hi, lo = f32(max(o, cl) * rng.choice([1, 1.02, 1.2])), f32(min(o, cl) * rng.choice([1, .98, .8]))
    return {"t": t, "v": [o, hi, lo, cl, f32(rng.choice([0, 0, 1, rng.uniform(0, 1000), 1e6]))]}


def walk(rng, ts, p):
    out, boom = [], rng.random() < .1
    if boom:
        p = 1.5
    for t in ts:
        out.append(tick(rng, t, p))
        if boom:
            p = min(p * rng.choice([1, 2, 5]), 60000)
            continue
        p = min(max(p * rng.choice([1, 1.01, .99, 1.1, .9, 1.4, .7]), .5), 60000)
    return out


def times(rng, n, at=0, steps=(300, 3600, 3600 * 5, D, D, 7 * D, 31 * D)):
    out, step = [], rng.choice(steps)
    for _ in range(n):
        out.append(at)
        at += step if rng.random() < .8 else rng.choice(steps)
    return out


def data(rng, c, n):
    at = rng.choice([0, 0, -5 * D, rng.randint(0, 300 * D)])
    ts = times(rng, n, at) if n < 100 else times(rng, n, at, (300, 3600, 3600 * 5, D, 7 * D))
    c["ohlc"]["recs"] = walk(rng, ts, rng.choice([1.5, 700.0, 20000.0]))
    if rng.random() < .4:
        k = rng.choice([1, 2, 3])
        c["side"].update(given=True, recs=[{"t": t, "v": [f32(rng.gauss(0, 3)) for _ in range(k)]} for t in times(rng, rng.choice([0, 1, 5, 20]), rng.choice([0, -3, 7]))])
    return ts


def ranges(rng, c, ts):
    mid = lambda: (rng.choice(ts) if ts else 0) + rng.choice([0, 0, 1, -1, D])
    lo, hi = (None if rng.random() < .2 else mid()), (None if rng.random() < .2 else mid())
    if lo is not None and hi is not None and hi < lo and rng.random() < .9:
        lo, hi = hi, lo
    if hi is not None and rng.random() < .3:
        hi = (ts[-1] if ts else 0) + rng.choice([1, D])
    c["months"] = rng.choice([None, None, None, None, 0, -1, 1, 1, 2, 3, 6, 12, rng.choice([24, 36, 37, 48, 60, 120])])
    if (c["months"] or 0) > 0:       # windows in calendar months
        lo = add_months(c["T0"] // D, 0, rng.randint(-2, 3)) if rng.random() < .6 else mid()
        hi = add_months(c["T0"] // D, lo, rng.choice([0, 1, 3, 12, 30] if c["months"] < 24 else [12, 60, 130, 250])) + rng.choice([0, 0, 1, -1])
        if rng.random() < .05:
            hi = None
    set_range(rng, c, lo, hi, .1)


def eval_case(rng, cid, n, batch=False):
    c = blank_case(rng, cid)
    if rng.random() < .12:
        c["T0"] = rng.choice([25567, 24855, 24200]) * D      # around and after 2038
    ts = data(rng, c, n)
    account(rng, c, c["ohlc"]["recs"][0]["v"][0] if ts else 100.0)
    ranges(rng, c, ts)
    if batch:
        c["batch"] = True
    for k in LOGFLAG:
        if ((c["months"] or 0) <= 0 or batch) and rng.random() < .5:
            c["logs"][k] = rng.choice(["new", "new", "stale"])
    return c


def bulk_case(rng, cid, n):
    """Years of regular records."""
    c = blank_case(rng, cid)
    step = rng.choice([300, 600, 900])
    c["ohlc"]["recs"] = [{"t": i * step, "v": [v := 64.0 + i % 7, v, v, v, float(i % 3)]} for i in range(n)]
    account(rng, c, 64.0)
    a, b = rng.randint(0, n // 9), n - rng.randint(0, n // 99)
    set_range(rng, c, rng.choice([None, a * step + rng.choice([0, 1, -1])]), rng.choice([None, b * step + rng.choice([0, 1])]), 0)
    c["logs"] = {k: "new" for k in LOGFLAG}
    return c


def fault_case(rng, cid):
    c = eval_case(rng, cid, rng.choice([1, 2, 5, 12]), rng.random() < .2)
    what = rng.choice(["trader", "balance", "balance", "time", "time", "ohlc", "ohlc", "ohlc", "side", "side", "missing", "missing", "damage", "damage", "logs", "logs", "logs", "logs"])
    recs = c["ohlc"]["recs"]
    if what == "trader":
        c["trader"] = rng.choice(["", "Stop", "stops", "none", "rebalancing "])
    elif what == "balance":
        c["base"], c["quote"] = rng.choice([(0.0, None), (0.0, 0.0), (-1.0, 10.0), (1.0, -.01), (-1e-9, 1.0), (None, -5.0), (float("nan"), 1.0), (-5.0, -5.0)])
    elif what == "time":
        k = rng.choice(["start", "stop"])
        if rng.random() < .6:
            f = rand_fields(rng, True)
            c[k] = {"f": f, "text": timetext(f)}
            at = instant(f)
            if at is not None:          # fields that the format does not show may be wrong
                c["lo" if k == "start" else "hi"] = None if at <= 0 else at - c["T0"]
                c["months"] = None
        else:
            g = garbage(rng)
            c[k] = {"f": [], "text": g if isinstance(g, str) else g["text"]}
    elif what in ("ohlc", "side"):
        set_range(rng, c, None, None, 0)
        if what == "side":
            c["side"]["given"] = True
            recs = c["side"]["recs"] = [{"t": t, "v": [1.0, 2.0]} for t in times(rng, rng.choice([2, 4, 9]))]
        i = rng.randrange(len(recs))
        k = rng.random()
        if k < .5:
            x = recs[i]
            if i and rng.random() < .7:
                x["t"] = recs[i - 1]["t"] - rng.choice([0, 0, 1, D])
            else:
                x["t"] = -c["T0"] - rng.choice([0, 5])
        elif what == "ohlc":
            recs[i]["v"] = bad_values(rng, "ohlc", 0)
        elif len(recs) > 1:
            recs[i]["v"] = rng.choice([[], [1.0], [1.0] * 3])
    elif what == "missing":
        h = c[rng.choice(["ohlc", "ohlc", "side"])]
        h.update(given=True, missing=rng.choice(["nothere", "no/such/dir"]))
        if h is c["ohlc"] and rng.random() < .3:
            h.update(given=False, missing="")
        c["readable"] = False
    elif what == "damage":
        h = c[rng.choice(["ohlc", "side"])]
        h["given"] = True
        if rng.random() < .5:
            h["crc"] = 1
        else:
            h["tail"] = list(rng.choice([b"\x0c\x08", b"\x81" * 3, b"\x8c", b"\xff" * 12, b"\x03\x09\x09\x09"]))
        c["readable"] = False
    else:
        for k in LOGFLAG:
            if rng.random() < .7:
                c["logs"][k] = rng.choice(["new", "nodir", "isdir", "full", "full"])
        if rng.random() < .6:
            c["months"] = None
    return c


def world_cases(w, rng, limit):
    """Behaviours of the specification: its times are months, 0 is not a positive time."""
    T, B = w["times"], [None] + w["bounds"]
    hists = [h for n in range(w["maxlen"] + 1) for h in itertools.product(itertools.product(T, (True, False)), repeat=n)]
    combos = [(h, lo, hi, m, b) for h in hists for lo in B for hi in B for m in w["months"] for b in (False, True)]
    use = combos if len(combos) <= limit else rng.sample(combos, limit)
    cases, d0 = [], 365         # 1971-01-01, so that the windows since the beginning of time are few
    for i, (h, lo, hi, m, b) in enumerate(use):
        c = blank_case(rng, "world-%d" % i)
        at = lambda t: add_months(d0, 0, t - 1)
        c["T0"] = d0 * D
        if any(x[0] > y[0] for x, y in zip(h, h[1:])):
            lo, hi, m = None, None, 0          # selection is defined on sorted histories only
        if m > 0:
            lo, hi = 1 if lo is None else lo, 9 if hi is None else hi
        c["months"], c["batch"] = m, b
        set_range(rng, c, None if lo is None else at(lo), None if hi is None else at(hi), 0)
        for t, ok in h:
            x = tick(rng, at(t) if t else -c["T0"], 100.0)
            if not ok:
                x["v"][rng.randrange(4)] = rng.choice([0.0, -3.0])
            c["ohlc"]["recs"].append(x)
        cases.append(c)
    return cases, len(combos)


# --------------------------------------------------------------------- run --
def run(chk):
    rng = chk.rng
    wf = os.path.join(vlib.scratch(), "world.json")
    dirs = ["base", "eval", "indicators", "logging", "traders", "util"]
    with cf.ThreadPoolExecutor(3) as ex:
        exe_f = ex.submit(chk.builder.link, "trader", [os.path.join(vlib.REPO, "trader.cc")], dirs, ["base", "eval", "traders"], True)
        orc_f = ex.submit(chk.builder.link, "tool", [HARNESS], dirs, ["base", "eval", "traders"])
        chk.model("TraderToolMC", "TraderToolMCdeep.cfg" if chk.thorough else None, env={"WORLD_FILE": wf})
        exe, orc = exe_f.result(), orc_f.result()
    cases, total = world_cases(json.load(open(wf)), rng, chk.pick(300, 6000))
    chk.cov["world_behaviours_total"], chk.cov["world_behaviours_replayed"] = total, len(cases)
    cases += [eval_case(rng, "eval-%d" % i, rng.choice([0, 1, 2, 5, 12, 40])) for i in range(chk.pick(500, 6000))]
    cases += [eval_case(rng, "evallong-%d" % i, 600) for i in range(chk.pick(6, 60))]
    cases += [eval_case(rng, "batch-%d" % i, rng.choice([0, 1, 3, 12, 60]), True) for i in range(chk.pick(60, 600))]
    cases += [fault_case(rng, "fault-%d" % i) for i in range(chk.pick(350, 4000))]
    cases = [bulk_case(rng, "bulk-%d" % n, n) for n in chk.pick([75000], [75000, 140000])] + cases
    byid = {c["id"]: c for c in cases}
    counter = itertools.count()

    def observe(cs, shards=vlib.NCPU):
        with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
            obs = list(ex.map(lambda c: run_tool(exe, c, next(counter)), cs))
        oc = [dict(c) for c in cs if plain(c)]
        want = {c["id"]: o for c, o in zip(oc, vlib.drive(orc, oc, oracle_text, shards=shards))} if oc else {}
        for i, o in want.items():
            if "crash" in o:
                raise vlib.CheckError("evaluation of %s crashed: %s" % (i, o))
        return [merge(c, o, want.get(c["id"])) for c, o in zip(cs, obs)]

    rows = observe(cases)
    chk.cov["runs"] = len(rows)
    chk.cov["runs_ending_in_error"] = sum(1 for r in rows if r["code"])
    chk.cov["periods_compared"] = sum(len(r["got"]["periods"]) for r in rows)
    chk.cov["batch_lines_compared"] = sum(len(r["got"]["batch"]) for r in rows)
    chk.cov["logs_compared"] = sum(1 for r in rows for k in LOGFLAG if r["got"]["files"][k]["st"] == "file" and r["code"] == 0)
    for r in rows[-2:]:
        chk.sample(r)
    chk.assumptions += ["the results themselves are those of the evaluation library (P01-P18); this check decides that the tool evaluates what its flags say and reports it",
                        "files with records out of order are read without bounds (a binary search in an unsorted file selects arbitrarily)"]
    chk.validate("TraderToolTrace", rows, redo=lambda row: observe([byid[row["id"]]], 1)[0])
