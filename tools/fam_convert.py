"""The conversion tool (P23, P32): Convert bound to the convert binary."""
import gzip, itertools, json, math, os, re, shutil, struct, subprocess, zlib
import concurrent.futures as cf
from datetime import datetime, timedelta
from decimal import Decimal
import fam_history, vlib
from num import f32, me, txt
from fam_time import fmt as timetext, rand_fields, garbage

CLAMP = 1 << 30
LATE = [2208988800, 2147483648 - 3000, 2300000000]      # beyond 32 bits
DEFAULTS = {"start": [1, 2017, 1, 1, 0, 0, 0, 0], "stop": [1, 2021, 1, 1, 0, 0, 0, 0]}
NV = {"price": 2, "ohlc": 5}
OUTFLAG = {"price": "output_price_history_delimited_proto_file", "ohlc": "output_ohlc_history_delimited_proto_file",
           "side": "output_side_history_delimited_proto_file"}
INFLAG = {"price_csv": "input_price_history_csv_file", "price_proto": "input_price_history_delimited_proto_file",
          "ohlc_csv": "input_ohlc_history_csv_file", "ohlc_proto": "input_ohlc_history_delimited_proto_file",
          "side_csv": "input_side_history_csv_file"}


def clamp(x):
    return max(-CLAMP, min(CLAMP, x))


def whole(n):
    """An integer of any size as the digits of Dyadic.tla."""
    d, k = [], abs(n)
    while k:
        d.append(k % 4096)
        k //= 4096
    return {"s": (n > 0) - (n < 0), "d": d}


def mev(x):
    if math.isnan(x):
        return [0, 1048576]
    if math.isinf(x):
        return [1 if x > 0 else -1, 1048576]
    return me(x)


# ------------------------------------------------------- the stored format --
def varint(n):
    n &= (1 << 64) - 1
    out = b""
    while n > 127:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n])


def encode(kind, t, vals):
    b = b"" if t is None else b"\x08" + varint(t)
    for i, x in enumerate(vals):
        if x is not None:
            b += bytes([(2 if kind == "side" else i + 2) << 3 | 5]) + struct.pack("<f", x)
    return varint(len(b)) + b


def decode(data, kind):
    """Delimited records -> [(t, values)]; raises on damage."""
    pos, out = 0, []

    def vi():
        nonlocal pos
        r = s = 0
        while True:
            b = data[pos]
            pos += 1
            r |= (b & 127) << s
            s += 7
            if not b & 128:
                return r
    while pos < len(data):
        n = vi()
        end = pos + n
        if end > len(data):
            raise ValueError("cut")
        t, vals = 0, {} if kind != "side" else []
        while pos < end:
            tag = vi()
            if tag == 8:
                t = vi()
                t -= (t >> 63) << 64
            elif tag & 7 == 5:
                x = struct.unpack("<f", data[pos:pos + 4])[0]
                pos += 4
                if kind == "side":
                    vals.append(x)
                else:
                    vals[(tag >> 3) - 2] = x
            elif kind == "side" and tag == 18:     # packed
                k = vi()
                vals += list(struct.unpack("<%df" % (k // 4), data[pos:pos + k]))
                pos += k
            else:
                raise ValueError("field %d" % tag)
        out.append((t, vals if kind == "side" else [vals.get(i, 0.0) for i in range(NV[kind])]))
    return out


def load(path, kind):
    return decode(gzip.decompress(open(path, "rb").read()), kind)


# ------------------------------------------------------------------ running --
def input_bytes(c, which):
    """The file behind an input flag: the case's lines, or a decoy for another kind."""
    if which != c["src"]:
        return b"1500000000,1,1\n"
    if which.endswith("csv"):
        return b"".join(x["raw"].encode() + x.get("eol", "\n").encode() for x in c["lines"])
    data = b"".join(encode(c["kind"], x["pt"], x["pv"]) for x in c["lines"] if x["ok"]) + bytes(c.get("tail", []))
    data = gzip.compress(data, 6 if c.get("gz") else 0, mtime=0)     # the format is a gzip stream also without compression
    if c.get("crc"):
        data = data[:-8] + bytes([data[-8] ^ 1]) + data[-7:]
    return data


GAP = re.compile(r"^(-?\d+) \[([^\]]*)\] - (-?\d+) \[([^\]]*)\]: (\d+:\d\d:\d\d)$")
OUTL = re.compile(r"^ ([ x]) (-?\d+) \[([^\]]*)\]: (-?\d+)\.(\d\d) \[(-?\d+)\.(\d{4})\]$")


def report(so, T0):
    r = {"loaded": [], "gaps": [], "lines": [], "removed": [], "resampled": []}
    for x in so.split("\n"):
        m = re.match(r"Loaded (\d+) ", x)
        if m:
            r["loaded"].append(int(m.group(1)))
        m = GAP.match(x)
        if m:
            r["gaps"].append([clamp(int(m.group(1)) - T0), m.group(2), clamp(int(m.group(3)) - T0), m.group(4), m.group(5)])
        m = re.match(r"Removed (\d+) outliers", x)
        if m:
            r["removed"].append(int(m.group(1)))
        m = re.match(r"Resampled (\d+) records to (\d+) ", x)
        if m:
            r["resampled"] += [int(m.group(1)), int(m.group(2))]
        m = OUTL.match(x)
        if m:
            cap = lambda a, b: whole(int(a + b))
            r["lines"].append({"x": m.group(1) == "x", "t": clamp(int(m.group(2)) - T0), "at": m.group(3),
                               "p": cap(m.group(4), m.group(5)), "v": cap(m.group(6), m.group(7))})
    return r


STALE = b"stale content of an earlier run"


def run_tool(exe, c, n):
    """Runs the tool on a case in a folder of its own; returns the observation."""
    d = os.path.join(vlib.scratch(), "convert-%s" % n)
    os.makedirs(d)
    args = [exe]
    for w in c["inputs"]:
        name = "in-" + w
        if w == c["src"] and not c["readable"]:
            name = c.get("unreadable", "missing/" + w)
        else:
            with open(os.path.join(d, name), "wb") as f:
                f.write(input_bytes(c, w))
        args.append("--%s=%s" % (INFLAG[w], name))
    for o, how in c["outs"].items():
        name = "out-" + o
        if how == "stale":
            open(os.path.join(d, name), "wb").write(STALE)
        elif how == "nodir":
            name = "none/out-" + o
        elif how == "isdir":
            os.makedirs(os.path.join(d, name))
        elif how == "full":
            name = "/dev/full"
        args.append("--%s=%s" % (OUTFLAG[o], name))
    for k, flag in (("start", "start_time"), ("stop", "end_time")):
        if c[k] is not None:
            args.append("--%s=%s" % (flag, c[k]["text"]))
    for k, flag in (("dev", "max_price_deviation_per_min"), ("rate", "sampling_rate_sec"), ("topn", "top_n_gaps"), ("lastn", "last_n_outliers")):
        if c.get(k) is not None:
            args.append("--%s=%s" % (flag, c[k]))
    if c.get("compress") is not None:
        args.append("--compress=%s" % ("true" if c["compress"] else "false"))
    obs = {"crash": "", "code": 0, "outs": {}}
    try:
        p = subprocess.run(args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30,
                           env={**os.environ, "TZ": c["tz"]})
        obs["code"] = p.returncode
        obs["stdout"] = p.stdout.decode("utf-8", "replace")
        if p.returncode < 0:
            obs["crash"] = "signal %d" % -p.returncode
    except subprocess.TimeoutExpired:
        obs["crash"] = "timeout"
    for o, how in c["outs"].items():
        f = os.path.join(d, "out-" + o)
        st, recs = "untouched", []
        if how in ("new", "stale") and os.path.exists(f) and not (how == "stale" and open(f, "rb").read() == STALE):
            try:
                recs = load(f, o)
                st = "file"
            except (ValueError, IndexError, EOFError, OSError, zlib.error, struct.error):
                st = "damaged"
        obs["outs"][o] = {"st": st, "recs": recs}
    shutil.rmtree(d)
    return obs


def kept_of(c):
    """The records the case's lines denote (a claim that ConvertTrace verifies)."""
    lo, hi, out = c["lo"], c["hi"], []
    for x in c["lines"]:
        if not x["ok"]:
            return []
        if lo is not None and x["t"] < lo:
            continue
        if hi is not None and x["t"] >= hi:
            break
        out.append(x)
    return out


def merge(c, obs):
    T0 = c["T0"]
    blank = {"want": False, "broken": False, "st": "untouched", "recs": []}
    rec = lambda t, v: {"t": clamp(t - T0), "v": [mev(x) for x in v]}
    kept = kept_of(c)
    outs = {o: dict(blank) for o in OUTFLAG}
    for o, how in c["outs"].items():
        x = obs["outs"].get(o, blank)
        outs[o] = {"want": True, "broken": how in ("nodir", "isdir", "full"), "st": x["st"],
                   "recs": [rec(t, v) for t, v in x["recs"]]}
    line = lambda x: {"ok": x["ok"], "t": clamp(x["t"]), "pos": x["t"] + T0 > 0, "n": len(x["v"]), "v": [mev(v) for v in x["v"]]}
    tf = lambda k: {"given": c[k] is not None, "f": c[k]["f"] if c[k] else [], "default": DEFAULTS[k]}
    claimed = "ohlc" in c["outs"] and c["kind"] == "price" and bool(kept) and obs["code"] == 0 and outs["ohlc"]["st"] == "file"
    return {"id": c["id"], "crash": obs["crash"], "code": obs["code"], "inputs": c["inputs"], "readable": c["readable"],
            "t0": [T0 // 86400, T0 % 86400], "start": tf("start"), "stop": tf("stop"), "lines": [line(x) for x in c["lines"]],
            "outs": outs, "rate": 300 if c.get("rate") is None else c["rate"],
            "claimed": claimed, "kept": [line(x) for x in kept], "idx": obs.get("idx", []), "nticks": len(outs["ohlc"]["recs"]),
            "topn": CLAMP if (c.get("topn") or 0) < 0 else 50 if c.get("topn") is None else c["topn"],
            "lastn": CLAMP if (c.get("lastn") or 0) < 0 else 20 if c.get("lastn") is None else c["lastn"],
            "report": report(obs.get("stdout", ""), T0), "args": {k: c[k]["text"] for k in ("start", "stop") if c[k]}}


# --------------------------------------------------------------- generation --
def fields(rng, at, fmts=(3, 3, 4, 5)):
    """Civil fields denoting the instant `at` (seconds since 1970)."""
    k = rng.choice(fmts)
    off = rng.choice([0, 0, 60, -300, 330, 845]) if k in (4, 5) else 0
    x = datetime(1970, 1, 1) + timedelta(seconds=at + off * 60)
    return [k, x.year, x.month, x.day, x.hour, x.minute, x.second, off]


def bound(rng, at):
    f = fields(rng, at)
    return {"f": f, "text": timetext(f)}


def instant(f):
    h = f[4:7] if f[0] in (3, 4, 5) else [0, 0, 0]
    off = f[7] if f[0] in (2, 4, 5) else 0
    try:
        x = (datetime(f[1], f[2], f[3]) - datetime(1970, 1, 1)).days * 86400 + h[0] * 3600 + h[1] * 60 + h[2] - off * 60
    except ValueError:
        return None
    return x


def num(rng, x):
    x = f32(x)
    r = rng.random()
    if x == int(x) and abs(x) < 1e6 and r < .3:
        return "%d" % x
    if r < .1:
        return "%.9e" % x
    if r < .15 and x >= 0:
        return "+" + txt(x)
    if r < .2:            # all of its decimals, and more
        d = format(Decimal(x), "f")
        d = d if "." in d else d + "."
        return d + "0" * rng.choice([0, 3, 30, 80]) if x < 0 or rng.random() < .5 else "0" * rng.choice([1, 20, 70]) + d
    return txt(x)


BAD = {"price": ["", " ", "timestamp,price,volume", "{t}", "{t},{p}", "{t},{p},", "{t};{p};1", "{t}.5,{p},1", "{t},,1", "abc,{p},1", "{t},x,1", "{t},{p},x",
                 "{t} {p} 1", "{t},{p}|1", "{t}:{p}:1", ",{p},1", "#", "{t},{p};1"],
       "ohlc": ["", "a,b,c,d,e,f", "{t},{p},{p},{p},{p}", "{t},{p},{p},{p},{p},", "{t},{p},{p},,{p},1", "{t},{p},x,{p},{p},1", "{t};{p};{p};{p};{p};1",
                "{t},{p},{p},{p},{p},x", "x,{p},{p},{p},{p},1"],
       "side": ["", "time,signal", "abc,{p}", "{t},{p},x", "{t},x", "{t}.5,{p}", "{t}x,{p}", "{t},{p},-", "{t},1e", ",", "{t},{p},{p}x", "x{t},1", "{t};{p}", "{t},{p};{p}", "{t},{p}|1", "{t},{p};", "{t};{p},1", "{t}:{p}", "{t},{p}/2"]}


def good_values(rng, kind, nsig=1):
    if kind == "price":
        return [rng.choice([700.5, 1.0, rng.uniform(.001, 90000), rng.uniform(.001, 90000), 1e-30, 1e30]), rng.choice([0.0, 1.0, rng.random() * 1000, 1e-20])]
    if kind == "ohlc":
        b = rng.choice([1.0, 700.25, rng.uniform(.01, 50000)])
        o, cl = b * rng.choice([1, 1.1, .9]), b * rng.choice([1, 1.05, .95])
        return [f32(o), f32(max(o, cl) * rng.choice([1, 1.01])), f32(min(o, cl) * rng.choice([1, .99])), f32(cl), rng.choice([0.0, 5.5])]
    return [rng.choice([0.0, 1.0, -1.0, rng.gauss(0, 100), rng.gauss(0, 100), 1e-33, -3e-20, 1e30]) for _ in range(nsig)]


def bad_values(rng, kind, nsig):
    v = [f32(x) for x in good_values(rng, kind, nsig)]
    if kind == "price":
        k = rng.choice([0, 0, 1])
        v[k] = rng.choice([0.0, -1.0, -1e-30, math.nan, math.inf, -math.inf] if k == 0 else [-1.0, -1e-30, math.nan, math.inf])
    elif kind == "ohlc":
        k = rng.randint(0, 7)
        if k < 4:
            v[k] = rng.choice([0.0, -1.0, math.nan, math.inf])
        elif k == 4:
            v[4] = rng.choice([-1.0, math.nan])
        else:       # one price outside of low .. high
            lo, hi = v[2], v[1]
            i = rng.choice([0, 3])
            v[i] = f32(hi * 1.001) if rng.random() < .5 else f32(lo * .999)
            if rng.random() < .3:
                v = [v[0], lo * .5, v[2], v[3], 1.0]
    return [f32(x) if math.isfinite(x) else x for x in v]


def mk_line(rng, c, t, vals):
    """A readable line (or stored record)."""
    vals = [f32(v) if math.isfinite(v) else v for v in vals]
    x = {"ok": True, "t": t, "v": vals}
    if c["src"].endswith("csv"):
        a = c["T0"] + t
        n = [("nan" if math.isnan(v) else "inf" if v > 0 else "-inf") if not math.isfinite(v) else num(rng, v) for v in vals]
        sep = rng.choice([",", ",", ",", ", ", ",  "])
        x["raw"] = rng.choice(["", "", "", " "]) + sep.join([rng.choice(["%d"] * 9 + ["%015d"]) % a] + n)
        x["eol"] = rng.choice(["\n"] * 6 + ["\r\n"])
    else:
        x["pt"], x["pv"] = c["T0"] + t, vals
    return x


def mk_bad(rng, c, t):
    """An unparsable line; one whose time can be read lies inside the range."""
    inside = (c["lo"] is None or t >= c["lo"]) and (c["hi"] is None or t < c["hi"])
    raw = rng.choice([b for b in BAD[c["kind"]] if inside or "t}" not in b]).format(t=c["T0"] + t, p=num(rng, 1.5))
    return {"ok": False, "t": 0, "v": [], "raw": raw, "eol": "\n"}


def blank_case(rng, cid, src):
    c = {"id": cid, "src": src, "kind": src.split("_")[0], "inputs": [src], "readable": True, "T0": rng.choice([1483228800] * 3 + LATE[:1]) + rng.choice([0, 86400 * 100, 10 ** 7]),
         "lines": [], "start": None, "stop": None, "outs": {}, "lo": None, "hi": None, "tz": rng.choice(vlib.ZONES)}
    for k, how in (("dev", lambda: rng.choice([.05, .01, .2])), ("rate", lambda: rng.choice([1, 60, 300, 3600, 86400])),
                   ("topn", lambda: rng.choice([0, 1, 3, 5, 100, -1])), ("lastn", lambda: rng.choice([0, 1, 2, 5, 100, -1])),
                   ("compress", lambda: rng.random() < .5)):
        c[k] = how() if rng.random() < .6 else None
    return c


def set_bounds(rng, c, lo, hi, default=.3):
    """lo, hi: relative times or None (unbounded)."""
    for k, x, d in (("start", lo, DEFAULTS["start"]), ("stop", hi, DEFAULTS["stop"])):
        if x is None:
            f = rng.choice([[1, 1970, 1, 1, 0, 0, 0, 0], [3, 1969, 12, 31, 23, 59, 59, 0], [4, 1970, 1, 1, 1, 0, 0, 60], [1, 1960, 6, 1, 0, 0, 0, 0]])
            c[k] = {"f": f, "text": timetext(f)}
        else:
            c[k] = bound(rng, c["T0"] + x)
        if rng.random() < default and k == "start" and c["T0"] >= 1483228800:
            c[k] = None
        elif rng.random() < default and k == "stop" and (c["T0"] < LATE[1] or rng.random() < .1):
            c[k] = None
        f = c[k]["f"] if c[k] else d
        at = instant(f)
        c["lo" if k == "start" else "hi"] = None if at is None or at <= 0 else at - c["T0"]


def choose_outs(rng, c, broken=.08):
    p = {"price": {"price": .7, "ohlc": .5, "side": .1}, "ohlc": {"ohlc": .9, "price": .2, "side": .1},
         "side": {"side": .9, "price": .1, "ohlc": .1}}[c["kind"]]
    for o in p:
        if rng.random() < p[o]:
            c["outs"][o] = rng.choice(["nodir", "isdir", "full"]) if rng.random() < broken else rng.choice(["new", "new", "stale"])


def history_times(rng, n):
    t, out = 0, []
    years = rng.random() < .2              # silences of months and years
    for _ in range(n):
        out.append(t)
        t += rng.choice([1, 60, 60, 300, 1, 45, 3600, 100000])
        if years and t < 3 * 10 ** 8 and rng.random() < .4:
            t += rng.choice([60 * rng.randint(10 ** 5, 5 * 10 ** 6) + rng.choice([0, 1, 59]), rng.randint(10 ** 7, 3 * 10 ** 8)])
    return out


def lines_case(rng, cid, n):
    c = blank_case(rng, cid, rng.choice(sorted(INFLAG)))
    if rng.random() < .15:
        c["T0"] = rng.choice(LATE)
    ts, nsig = history_times(rng, n), rng.choice([1, 1, 1, 2, 2, 5, 5, 65, 200])
    mid = lambda: (ts[rng.randrange(n)] if n else 0) + rng.choice([0, 0, 1, -1, 7])
    r = rng.random()
    set_bounds(rng, c, None if r < .3 else mid(), None if .2 < r < .5 else mid() if rng.random() < .7 else 10 ** 8, default=.15)
    if c["kind"] != "side":
        ts = [t for i, t in enumerate(ts)]
        for i in range(1, n):
            if rng.random() < .15:
                ts[i] = ts[i - 1]
    csv = c["src"].endswith("csv")
    faults = rng.choice([0, 0, 0, 1, 1, 2])
    at = set(rng.sample(range(n), min(faults, n))) if n else set()
    early = lambda t: c["lo"] is not None and t < c["lo"]
    for i, t in enumerate(ts):
        vals = good_values(rng, c["kind"], nsig)
        if i in at:
            k = rng.choice(["parse", "value", "value", "time", "time", "swap"])
            if k == "parse" and csv:
                c["lines"].append(mk_bad(rng, c, t))
                continue
            if k == "value" and not early(t):
                if c["kind"] == "side":
                    vals = good_values(rng, "side", rng.choice([0, nsig + 1, nsig - 1]))
                else:
                    vals = bad_values(rng, c["kind"], nsig)
            elif k == "time" and c["hi"] is not None and rng.random() < .3:    # in milliseconds: far behind the range
                t = c["T0"] * 999 + t * rng.choice([1, 1000])
            elif k == "time":
                t = rng.choice([-c["T0"], -c["T0"] - 5, (ts[i - 1] if i else 0) - rng.choice([1, 0, 1000]), -500000])
        x = mk_line(rng, c, t, vals)
        c["lines"].append(x)
    if not csv:
        c["gz"] = rng.random() < .5
        missing = rng.random()
        if missing < .1 and c["lines"]:     # a stored record without some fields
            x = c["lines"][rng.randrange(n)]
            k = rng.randint(-1, len(x["v"]) - 1)
            if k < 0:
                x["pt"], x["t"] = None, -c["T0"]
            else:
                x["pv"] = [None if j == k else v for j, v in enumerate(x["pv"])]
                x["v"] = [0.0 if j == k else v for j, v in enumerate(x["v"])]
        elif missing < .25:                 # damage after the complete records
            bad = {"ok": False, "t": 0, "v": []}
            if rng.random() < .5:
                full = encode(c["kind"], c["T0"] + 10 ** 6, good_values(rng, c["kind"]))
                c["tail"] = list(rng.choice([full[:rng.randint(1, len(full) - 1)], b"\x81" * 3, b"\x81", b"\xff" * 12, b"\x03\x09\x09\x09"]))
                c["lines"].append(bad)
            elif not any(c["hi"] is not None and x["t"] >= c["hi"] and not early(x["t"]) for x in c["lines"]):
                c["crc"] = 1
                c["lines"].append(bad)
    elif c["lines"] and rng.random() < .2 and c["lines"][-1].get("raw"):
        c["lines"][-1]["eol"] = ""
    choose_outs(rng, c)
    if c["kind"] == "price" and "ohlc" in c["outs"]:      # keep the number of ticks moderate
        span = max([x["t"] for x in c["lines"]] + [0]) + 500000
        if c["rate"] is None or span / c["rate"] > 5000:
            c["rate"] = rng.choice([3600, 86400]) if span < 10 ** 7 else 604800
    return c


def bad_cases(rng):
    """Every kind of unparsable line among readable ones, and as the first or last line."""
    out = []
    for kind in sorted(BAD):
        for j, b in enumerate(BAD[kind]):
            c = blank_case(rng, "bad-%s-%d" % (kind, j), kind + "_csv")
            set_bounds(rng, c, rng.choice([None, -10]), rng.choice([None, 10 ** 6]), default=0)
            ts, at = [0, 300, 600, 900], rng.choice([0, 1, 2, 3])
            nsig = len(b.format(t=1, p=1).replace(";", ",").replace("|", ",").split(",")) - 1 if kind == "side" else 1
            for i, t in enumerate(ts):
                if i == at:
                    c["lines"].append({"ok": False, "t": 0, "v": [], "raw": b.format(t=c["T0"] + t, p=num(rng, 1.5)), "eol": "\n"})
                else:
                    c["lines"].append(mk_line(rng, c, t, good_values(rng, kind, max(1, nsig))))
            c["outs"][kind] = rng.choice(["new", "stale"])
            out.append(c)
    return out


def fault_cases(rng):
    """Every input kind with a small step of time (also back or nowhere) and with each value at and just behind its limit, alone among good records."""
    out = []
    for src in sorted(INFLAG):
        kind = src.split("_")[0]
        wide = len(good_values(rng, kind))
        faults = [("step", d) for d in (-300, -2, -1, 0, 1)] + [("time", a) for a in (0, -1, 1)]
        if kind != "side":
            faults += [("value", (k, v)) for k in range(wide) for v in (0.0, -1e-30, -1.0, 1e-30)]
        if kind == "ohlc":      # values equal, and in each wrong order by the smallest step
            faults += [("order", (k, up)) for k in range(4) for up in (0, 1, -1)]
        for j, (what, x) in enumerate(faults):
            c = blank_case(rng, "fault-%s-%d" % (src, j), src)
            set_bounds(rng, c, None, None, default=0)
            at = rng.choice([1, 2, 3])
            if what == "time" or rng.random() < .2:
                at = 0 if what != "step" else at
            ts = [0, 300, 600, 900]
            nsig = rng.choice([1, 3])
            for i, t in enumerate(ts):
                v = good_values(rng, kind, nsig)
                if i == at and what == "step":
                    t = ts[i - 1] + x
                elif i == at and what == "time":
                    t = x - c["T0"]
                elif i == at and what == "value":
                    v[x[0]] = x[1]
                elif i == at and what == "order":
                    b = [101.5, 107.25, 99.5, 103.75]
                    lim = {0: rng.choice([1, 2]), 3: rng.choice([1, 2]), 1: rng.choice([0, 3]), 2: rng.choice([0, 3])}[x[0]]
                    if x[0] == 1 and lim == 0:
                        b[3] = b[0]
                    if x[0] == 1 and lim == 3:
                        b[0] = b[3]
                    if x[0] == 2:
                        b[0 if lim == 3 else 3] = b[lim]
                    b[x[0]] = b[lim] if x[1] == 0 else struct.unpack("<f", struct.pack("<i", struct.unpack("<i", struct.pack("<f", b[lim]))[0] + x[1]))[0]
                    v = b + [1.0]
                c["lines"].append(mk_line(rng, c, t, v))
            if not src.endswith("csv"):
                c["gz"] = rng.random() < .5
            c["outs"][kind] = rng.choice(["new", "stale"])
            out.append(c)
    return out


def flags_case(rng, cid):
    c = blank_case(rng, cid, rng.choice(sorted(INFLAG)))
    set_bounds(rng, c, None, None, .5)
    for t in history_times(rng, rng.choice([0, 1, 2, 5])):
        c["lines"].append(mk_line(rng, c, t, good_values(rng, c["kind"], 2)))
    choose_outs(rng, c, .25)
    r = rng.random()
    if r < .35:
        k = rng.choice([0, 2, 2, 3, 5])
        c["inputs"] = rng.sample(sorted(INFLAG), k)
    elif r < .55:
        c["readable"] = False
        if rng.random() < .2:
            c["unreadable"] = ""
            c["inputs"] = []          # an empty name is no input
    elif r < .85:
        k = rng.choice(["start", "stop"])
        if rng.random() < .5:
            f = rand_fields(rng, True)
            c[k] = {"f": f, "text": timetext(f)}
            at = instant(f)           # some are valid after all
            c["lo" if k == "start" else "hi"] = None if at is None or at <= 0 else at - c["T0"]
        else:
            g = garbage(rng)
            c[k] = {"f": [], "text": g if isinstance(g, str) else g["text"]}
    else:
        c["rate"] = rng.choice([0, -1, -300])
    return c


def series_case(rng, cid, n):
    """A price series with outliers and gaps, resampled."""
    src = rng.choice(["price_csv", "price_csv", "price_proto"])
    h = fam_history.outlier_case(rng, cid, n) if rng.random() < .75 else fam_history.resample_case(rng, cid, n)
    c = blank_case(rng, cid, src)
    recs = [r for r in h["recs"] if 0 < r[1] < 1e7 and 0 <= r[2] < 1e5]
    top = 3000 * (c["rate"] or 300)
    recs = [r for r in recs if r[0] < top]
    last = recs[-1][0] if recs else 0
    c["T0"] = rng.choice([1483228800, 1483228800 + rng.randint(0, 10 ** 7), 5 * 10 ** 8, rng.choice(LATE)])
    set_bounds(rng, c, None if rng.random() < .5 else rng.randint(0, max(1, last // 3)), None if rng.random() < .4 else rng.randint(last // 2, last + 10), .1)
    c["lines"] = [mk_line(rng, c, r[0], r[1:3]) for r in recs]
    if src == "price_proto":
        c["gz"] = rng.random() < .5
    c["outs"] = {"ohlc": "new"}
    if rng.random() < .4:
        c["outs"]["price"] = "new"
    if h["ops"][0][0] == "outliers" and rng.random() < .7:
        c["dev"] = h["ops"][0][1]
    return c


def silences_case(rng, cid):
    """Gaps from seconds to decades."""
    c = blank_case(rng, cid, rng.choice(["price_csv", "price_proto"]))
    c["T0"] = 1483228800 - rng.choice([0, 10 ** 9])
    set_bounds(rng, c, None, 10 ** 9 + 5, 0)
    t = 0
    for _ in range(rng.randint(2, 12)):
        if t < 10 ** 9:
            c["lines"].append(mk_line(rng, c, t, good_values(rng, "price")))
        t += rng.choice([int(math.exp(rng.uniform(0, 19.5))), 60 * int(math.exp(rng.uniform(0, 15.5))) + rng.choice([0, 1, 59])])
    c["gz"] = True
    c["outs"] = {"price": "new"}
    return c


def spikes_case(rng, cid, n):
    """Hundreds of outliers."""
    c = blank_case(rng, cid, rng.choice(["price_csv", "price_proto"]))
    c["dev"], c["outs"] = .05, {"ohlc": "new"}
    c["rate"] = rng.choice([None, 60, 3600])
    c["lastn"], c["topn"] = rng.choice([None, 1, 50]), rng.choice([None, 3])
    set_bounds(rng, c, None, 10 ** 8, 0)
    c["lines"] = [mk_line(rng, c, 60 * i, [1000.0 * (rng.choice([3, .2]) if i % 4 == 1 else 1), 1.0]) for i in range(n)]
    c["gz"] = True
    return c


def bulk_case(rng, cid, src, n):
    """A long regular history without outliers (ConvertBulkTrace)."""
    c = blank_case(rng, cid, src)
    c.update(T0=1483228800, step=rng.choice([60, 60, 30]), n=n, rate=rng.choice([300, 3600, 60]), topn=rng.choice([0, 3, 50]), dev=.05)
    end = n * c["step"]
    lo, hi = rng.choice([(None, None), (rng.randint(0, end // 9), None), (None, rng.randint(end - end // 9, end)), (rng.randint(0, end // 9), rng.randint(end - end // 9, end))])
    set_bounds(rng, c, lo, hi, 0)
    k = {"price": 2, "ohlc": 5, "side": 1}[c["kind"]]
    for i in range(n):
        p = 100 + (i % 4) / 8
        v = [p] * (k - 1) + [1.0] if k > 1 else [p]
        x = {"ok": True, "t": i * c["step"], "v": v}
        if src.endswith("csv"):
            x["raw"], x["eol"] = ",".join(["%d" % (c["T0"] + x["t"])] + ["%g" % y for y in v]), "\n"
        else:
            x["pt"], x["pv"] = c["T0"] + x["t"], v
        c["lines"].append(x)
    c["outs"] = {"price": "new", "ohlc": "new"} if c["kind"] == "price" else {c["kind"]: "new"}
    return c


def bulk_row(c, obs):
    T0, kept = c["T0"], kept_of(c)
    f = obs["outs"][c["kind"]]
    same = 0
    while same < min(len(kept), len(f["recs"])) and (f["recs"][same][0], list(f["recs"][same][1])) == (T0 + kept[same]["t"], kept[same]["v"]):
        same += 1
    ticks = {"want": c["kind"] == "price", "st": "", "n": 0, "regular": 0, "first": 0, "runs": []}
    if ticks["want"]:
        o, r = obs["outs"]["ohlc"], []
        reg = 0
        while reg < len(o["recs"]) and o["recs"][reg][0] == o["recs"][0][0] + reg * c["rate"]:
            v = o["recs"][reg][1][4]
            v = int(v) if v == int(v) else -1
            k = (o["recs"][reg][0] - T0) // c["rate"]
            if r and r[-1]["v"] == v:
                r[-1]["len"] += 1
            else:
                r.append({"k": k, "len": 1, "v": v})
            reg += 1
        ticks.update(st=o["st"], n=len(o["recs"]), regular=reg, first=(o["recs"][0][0] - T0) // c["rate"] if o["recs"] else 0, runs=r[:100])
    rp = report(obs.get("stdout", ""), T0)
    return {"id": c["id"], "crash": obs["crash"], "code": obs["code"], "kind": c["kind"], "n": c["n"], "step": c["step"], "rate": c["rate"], "topn": c["topn"],
            "lo": [] if c["lo"] is None else [c["lo"]], "hi": [] if c["hi"] is None else [c["hi"]],
            "file": {"st": f["st"], "n": len(f["recs"]), "same": same}, "ticks": ticks, "loaded": rp["loaded"], "removed": rp["removed"],
            "resampled": rp["resampled"], "gaps": [[g[0], g[2]] for g in rp["gaps"]]}


def world_cases(w, rng, limit):
    out = []
    T, B = w["times"], [None] + w["bounds"]
    for kind in ("price", "side"):
        alpha = [("bad",)] + [("t", t, v, 1) for t in T for v in ((True, False) if kind == "price" else (True,))]
        if kind == "side":
            alpha += [("t", t, True, n) for t in T for n in (0, 2)]
        for n in range(w["maxlen"] + 1):
            for ls in itertools.product(alpha, repeat=n):
                out += [(kind, ls, lo, hi) for lo in B for hi in B]
    total = len(out)
    use = out if total <= limit else rng.sample(out, limit)
    cases = []
    for i, (kind, ls, lo, hi) in enumerate(use):
        c = blank_case(rng, "world-%d" % i, "side_csv" if kind == "side" else rng.choice(["price_csv", "price_csv", "price_proto"]))
        if any(x[0] == "bad" for x in ls) and kind == "price":
            c["src"] = "price_csv"
            c["inputs"] = ["price_csv"]
        c["T0"] = 0
        set_bounds(rng, c, lo, hi, 0)
        for x in ls:
            if x[0] == "bad":
                c["lines"].append(mk_bad(rng, c, rng.choice(T)))
            else:
                v = [1.5, 2.0] if x[2] else [rng.choice([0.0, -2.0]), 1.0]
                c["lines"].append(mk_line(rng, c, x[1], v if kind == "price" else [.5, 1.0][:x[3]]))
        c["outs"] = {o: rng.choice(["new", "stale"]) for o in OUTFLAG}
        cases.append(c)
    return cases, total


# --------------------------------------------------------------------- run --
def pkgs(chk):
    b = chk.builder
    return b.link("convert", [os.path.join(vlib.REPO, "convert.cc")], ["base", "util"], ["base"], flags=True)


def run(chk):
    rng, P = chk.rng, chk.prop
    wf = os.path.join(vlib.scratch(), "world.json")
    with cf.ThreadPoolExecutor(3) as ex:
        exe_f = ex.submit(pkgs, chk)
        hist_f = ex.submit(chk.builder.link, "history", [fam_history.HARNESS], ["base"], ["base"])
        chk.model("ConvertMC", "ConvertMCdeep.cfg" if chk.thorough else None, env={"WORLD_FILE": wf})
        exe, hist = exe_f.result(), hist_f.result()
    cases = []
    if P == "P23":
        cases, total = world_cases(json.load(open(wf)), rng, chk.pick(700, 20000))
        chk.cov["world_behaviours_total"], chk.cov["world_behaviours_replayed"] = total, len(cases)
        cases += [lines_case(rng, "lines-%d" % i, rng.choice([0, 1, 2, 3, 5, 8, 20])) for i in range(chk.pick(900, 12000))]
        cases += [flags_case(rng, "flags-%d" % i) for i in range(chk.pick(250, 2500))]
        cases += [lines_case(rng, "long-%d" % i, 300) for i in range(chk.pick(4, 30))]
        for _ in range(chk.pick(2, 20)):
            cases += [{**c, "id": "%s-%d" % (c["id"], len(cases))} for c in bad_cases(rng) + fault_cases(rng)]
        cases += [series_case(rng, "series-%d" % i, rng.choice([1, 5, 20, 40])) for i in range(chk.pick(120, 800))]
    else:
        cases += [series_case(rng, "series-%d" % i, rng.choice([1, 5, 20, 40, 100])) for i in range(chk.pick(500, 5000))]
        cases += [silences_case(rng, "silences-%d" % i) for i in range(chk.pick(60, 600))]
        cases += [spikes_case(rng, "spikes-%d" % i, rng.randint(2050, 2150)) for i in range(chk.pick(1, 6))]
        cases += [lines_case(rng, "lines-%d" % i, rng.choice([0, 1, 2, 3, 5, 8, 20])) for i in range(chk.pick(300, 3000))]
    byid = {c["id"]: c for c in cases}
    counter = itertools.count()

    def observe(cs, shards=vlib.NCPU):
        with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
            obs = list(ex.map(lambda c: run_tool(exe, c, next(counter)), cs))
        # which records of the imported history are outliers: the real function on the same records (validated as P20)
        hc = []
        for c, o in zip(cs, obs):
            k = kept_of(c)
            if o["code"] == 0 and not o["crash"] and c["kind"] == "price" and "ohlc" in c["outs"] and k:
                hc.append({"id": c["id"], "T0": c["T0"], "recs": [[x["t"]] + x["v"] for x in k],
                           "ops": [["outliers", f32(.05 if c.get("dev") is None else c["dev"]), 5, 5, max(0, c.get("lastn") or 0)]]})
        hobs = {c["id"]: (c, o) for c, o in zip(hc, vlib.drive(hist, hc, fam_history.text, shards=shards))} if hc else {}
        rows, r20, r19 = [], [], []
        for c, o in zip(cs, obs):
            if c["id"] in hobs:
                h, ho = hobs[c["id"]]
                if "crash" in ho:
                    raise vlib.CheckError("outlier removal crashed: %s" % ho)
                o["idx"] = ho["idx"]
                r20.append(fam_history.merge(h, ho))
            rows.append(merge(c, o))
            if rows[-1]["claimed"]:
                clean = [x for i, x in enumerate(h["recs"]) if i not in set(ho["idx"])]
                rc = {"id": c["id"], "T0": c["T0"], "recs": clean, "ops": [["resample", 300 if c.get("rate") is None else c["rate"]]]}
                r19.append(fam_history.merge(rc, {"ticks": [[t] + [me(x) for x in v] for t, v in o["outs"]["ohlc"]["recs"]]}))
        return rows, r20, r19

    rows, r20, r19 = observe(cases)
    one = lambda i: lambda row: next(r for r in observe([byid[row["id"]]], 1)[i])
    chk.cov["runs"] = len(rows)
    chk.cov["runs_ending_in_error"] = sum(1 for r in rows if r["code"])
    chk.cov["series_resampled"] = len(r19)
    chk.cov["outliers_removed"] = sum(len(r["idx"]) for r in rows)
    chk.cov["report_lines"] = sum(len(r["report"]["gaps"]) + len(r["report"]["lines"]) for r in rows)
    for r in rows[-2:]:
        chk.sample({**r, "lines": r["lines"][:4], "kept": r["kept"][:2]})
    chk.assumptions += ["times are given within reach of the calendar and fit 64 bits", "lines with further text after the last field, and unparsable lines with a readable time outside of the range, are not generated"]
    if not chk.validate("ConvertTrace", rows, redo=one(0)):
        return
    bulk = [bulk_case(rng, "bulk-%s-%d" % (src, n), src, n)
            for n in chk.pick([70000], [30000, 140000, 600000]) for src in (chk.pick(["price_csv", "price_proto", rng.choice(["ohlc_csv", "ohlc_proto"]), "side_csv"], list(INFLAG)))]
    bid = {c["id"]: c for c in bulk}
    with cf.ThreadPoolExecutor(4) as ex:
        brows = list(ex.map(lambda c: bulk_row(c, run_tool(exe, c, next(counter))), bulk))
    chk.cov["bulk_records"] = sum(c["n"] for c in bulk)
    if not chk.validate("ConvertBulkTrace", brows, redo=lambda r: bulk_row(bid[r["id"]], run_tool(exe, bid[r["id"]], next(counter)))):
        return
    if P == "P23":
        if chk.validate("HistoryTrace", r20, redo=one(1), prop="P20"):
            chk.validate("HistoryTrace", r19, redo=one(2), prop="P19")
