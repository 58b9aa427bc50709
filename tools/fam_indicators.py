"""Indicators (P26-P30): Aggregate and Indicators bound to the classes of indicators/ and the volatilities of a report."""
import itertools, json, math, os
import concurrent.futures as cf
import vlib
from num import f32, me, txt, nxt

HARNESS = os.path.join(vlib.VERIF, "harness", "indicators.cc")
DAY = 86400


def tick_text(c, e):
    return "t %d %s" % (c["T0"] + e["t"], " ".join(txt(x) for x in e["p"]))


def text(c):
    k = c["kind"]
    head = {"agg": lambda: "%d %d %d" % (c["n"], c["period"], c["mask"]), "win": lambda: "%d %d %d %d" % (c["n"], *c.get("burn", (0, 1, 1))), "emah": lambda: "",
            "ema": lambda: "%s %d %d" % (txt(c["cfg"]), c["n"], c["period"]), "macd": lambda: "%d %d %d %d" % (*c["cfg"], c["period"]),
            "report": lambda: "eval %d %d %d %d %s %s\nscript %d %s" % (*c["eval"], txt(c["start"][0]), txt(c["start"][1]), len(c["script"]),
                                                                       " ".join(map(str, c["script"])))
            }.get(k, lambda: "%d %d" % (c["n"], c["period"]))()
    out = ["%s %d %s" % (k, c["T0"], head)]
    if c.get("flat"):
        out.append("burn %d %d %s" % (c["flat"][0], c["T0"] + c["ev"][0]["t"], txt(c["flat"][1])))
    for e in c["ev"]:
        if k == "win":
            out.append("%s %s" % (e["op"], txt(e["v"])))
        elif k == "emah":
            out.append("%s %s %s" % (e["op"], txt(e["v"]), txt(e["w"])))
        elif k == "vol":
            out.append(tick_text(c, e) + " %s %s" % (txt(e["b"]), txt(e["q"])))
        else:
            out.append(tick_text(c, e))
    return "\n".join(out)


def tick_row(t, p):
    o, h, l, cl, v = p
    return {"t": t, "o": me(f32(o)), "h": me(f32(h)), "l": me(f32(l)), "c": me(f32(cl)), "v": me(f32(v))}


def merge(c, obs):
    """One row per case; one per period for reports."""
    k = c["kind"]
    row = {"id": c["id"], "kind": k, "crash": obs.get("crash", ""), "n": c.get("n", 0), "period": c.get("period", DAY), "ev": [], "n0": 0, "init": []}
    row["off"] = c["T0"] % row["period"]
    if "crash" in obs:
        return [row]
    if k == "report":
        out = []
        for i, p in enumerate(obs["periods"]):
            out.append({**row, "id": "%s.%d" % (c["id"], i), "fast": bool(c["eval"][3]), "hb": p["hb"], "ht": p["ht"], "bv": p["bv"], "tv": p["tv"],
                        "ev": p["fed"]})
        if obs["traders"] != len(obs["periods"]):
            out.append({**row, "id": c["id"] + ".x", "crash": "%d traders for %d periods" % (obs["traders"], len(obs["periods"]))})
        return out
    row.update(n0=obs["n0"], init=obs["init"], after=obs["after"], burn=[])
    if c.get("flat"):
        row["burn"] = [c["flat"][0], me(f32(c["flat"][1]))]
    if k == "win":
        m, a, b = c.get("burn", (0, 1, 1))
        vs = [(i * a) % b for i in range(m)]
        row["burn"] = [m, [me(v) for v in vs[max(0, m - max(1, c["n"])):]], me(sum(vs)), me(sum(v * v for v in vs))]
    if k == "ema":
        row["cfg"] = me(f32(c["cfg"]))
    elif k == "macd":
        row["cfg"] = c["cfg"]
    elif k == "agg":
        row["mask"] = c["mask"]
    for e, o in zip(c["ev"], obs["ev"]):
        x = dict(o)
        if "p" in e:
            x["x"] = tick_row(e["t"], e["p"])
        for f in ("v", "w", "b", "q"):
            if f in e:
                x[f] = me(f32(e[f]))
        if "op" in e:
            x["op"] = e["op"]
        row["ev"].append(x)
    return [row]


# ------------------------------------------------------------- generation --
def T0(rng):
    return rng.choice([1, 1483228800, 1483228800 + rng.randint(0, 10 ** 6), rng.randint(1, 1 << 33), 4102444800])


def stream(rng, n, period, t0, style=None, gapmax=6, volume=None):
    """Non-decreasing ticks with valid prices."""
    style = style or rng.choice(["int", "int", "dec", "dec", "flat", "tiny", "ramp", "huge", "saw"])
    off = t0 % period
    p = {"int": 100, "flat": 50, "saw": 64, "ramp": 10, "tiny": 2e-6, "huge": 5e6, "dec": math.exp(rng.uniform(-3, 9))}[style]
    drift = rng.choice([0, 0, 1, -1])
    many = rng.choice([.2, .5, .9])                  # how often a tick stays in its period
    out, t = [], 0
    dec = style in ("dec", "huge", "tiny")
    for i in range(n):
        if i:
            r = rng.random()
            left = period - 1 - (t + off) % period   # seconds to the period's last second
            if r < many:
                t += rng.choice([0, left, rng.randint(0, left), rng.randint(0, left)])
            elif r < many + (1 - many) * .7:
                t += left + 1 + rng.choice([0, 0, period - 1, rng.randint(0, period - 1)])
            else:
                t += left + 1 + period * rng.randint(1, gapmax) + rng.choice([0, 0, period - 1, rng.randint(0, period - 1)])
        if style == "flat":
            step = rng.choice([0, 0, 0, 0, 0, 1, -1])
        elif style == "ramp":
            step = drift * rng.choice([0, 1, 2])
        elif style == "tiny":
            step = rng.choice([0, 1e-7, -1e-7, 5e-7, -5e-7, 9.9999e-7, 1.2e-6, -1e-8])
        elif style == "saw":
            step = 16 if i % 2 else -16
        elif style == "int":
            step = rng.randint(-9, 9) + drift
        else:
            step = p * rng.gauss(.01 * drift, .02)
        o = p
        if style in ("dec", "huge") and rng.random() < .03 or style == "int" and i == 0 and rng.random() < .3:
            step = o * rng.choice([-.7, -.55, -.55, 1.5])      # within a single tick
        c = max(1e-7 if style == "tiny" else 1, o + step) if not dec or style == "tiny" else max(1e-4, o + step)
        wide = 0 if style in ("flat", "ramp") or rng.random() < .3 else 1
        h = max(o, c) + wide * (rng.choice([0, 1, 5]) if not dec else abs(p * rng.gauss(0, .01)))
        l = min(o, c) - wide * (rng.choice([0, 1, 5]) if not dec else abs(p * rng.gauss(0, .01)))
        l = max(l, min(o, c) / 2) if dec else max(l, min(1, o, c))
        o, h, l, c = map(f32, (o, h, l, c))
        v = f32(rng.choice([0, 1, 7, rng.randint(0, 1000)]) if not dec else rng.choice([0, rng.random() * 100]))
        if volume is not None:
            v = volume(rng)
        out.append({"t": t, "p": [o, max(h, o, c), min(l, o, c), c, v]})
        p = c if rng.random() < .8 else f32(max(1, c + rng.choice([-1, 1]))) if not dec else c
    return out


PERIODS = [1, 2, 60, 300, 3600, DAY, DAY, 7 * DAY]


def agg_case(rng, cid, n):
    per = rng.choice(PERIODS + [rng.randint(1, 10 ** 5)])
    c = {"id": cid, "kind": "agg", "T0": T0(rng), "period": per, "n": rng.choice([1, 2, 3, 5, 10, 30]), "mask": rng.choice([7, 7, 7, 7, 0, 1, 2, 4, 3, 5, 6])}
    c["ev"] = stream(rng, n, per, c["T0"])
    return c


VALS = {"int": lambda r: r.randint(-9, 9), "pos": lambda r: r.randint(0, 1000), "dec": lambda r: f32(r.gauss(0, 1)), "near": lambda r: f32(1000 + r.random()),
        "same": lambda r: r.choice([5, 5, 5, 5.5]), "ret": lambda r: f32(r.gauss(0, .02)), "big": lambda r: f32(r.uniform(-1, 1) * 10 ** r.randint(-6, 9)),
        "third": lambda r: f32(1 / 3.), "two": lambda r: r.choice([0, 1])}


def win_case(rng, cid, n, w=None):
    val = VALS[rng.choice(list(VALS))]
    upd = rng.choice([0, .2, .6, .9])
    mono = rng.choice([0, 0, 0, 1, -1])
    ev = []
    for i in range(n):
        v = val(rng)
        if mono:
            v = mono * i + rng.choice([0, 0, 1])
        if ev and rng.random() < .2:
            v = ev[-1]["v"]
        ev.append({"op": "u" if i and rng.random() < upd else "a", "v": v})
    return {"id": cid, "kind": "win", "T0": 0, "n": rng.choice([0, 1, 2, 3, 4, 5, 8, 20]) if w is None else w, "ev": ev}


def emah_case(rng, cid, n):
    val = VALS[rng.choice(list(VALS))]
    upd = rng.choice([0, .3, .8])
    wt = rng.choice([lambda: .5, lambda: f32(rng.random()), lambda: rng.choice([0, 1, .25])])
    return {"id": cid, "kind": "emah", "T0": 0, "ev": [{"op": "u" if i and rng.random() < upd else "a", "v": val(rng), "w": wt()} for i in range(n)]}


def sma_case(rng, cid, n):
    per, t0 = rng.choice(PERIODS), T0(rng)
    return {"id": cid, "kind": "sma", "T0": t0, "period": per, "n": rng.choice([1, 2, 3, 5, 10, 30]), "ev": stream(rng, n, per, t0)}


def ema_case(rng, cid, n):
    per, t0, ln = rng.choice(PERIODS), T0(rng), rng.choice([1, 2, 3, 5, 10, 50, 200])
    return {"id": cid, "kind": "ema", "T0": t0, "period": per, "n": ln, "cfg": rng.choice([2, 2, 2, 1, 1.5, .5, .1, min(3, 1.5 * (1 + ln)), 1 + ln, 1.5 * (1 + ln)]), "ev": stream(rng, n, per, t0)}


def macd_case(rng, cid, n):
    per, t0 = rng.choice(PERIODS), T0(rng)
    f = rng.choice([1, 2, 3, 5, 12])
    return {"id": cid, "kind": "macd", "T0": t0, "period": per, "cfg": [f, max(1, f + rng.choice([1, 2, 14, 14, 0, -1, -7])), rng.choice([1, 2, 3, 9])], "ev": stream(rng, n, per, t0)}


def osc_case(rng, cid, n, kind):
    per, t0 = rng.choice(PERIODS), T0(rng)
    return {"id": cid, "kind": kind, "T0": t0, "period": per, "n": rng.choice([1, 2, 3, 5, 14]), "ev": stream(rng, n, per, t0)}


def balances(rng, ev):
    mode = rng.choice(["hold", "cash", "mix", "trade", "trade", "dust"])
    x = rng.choice([1e-3, 5e-3, .02, 3])
    b, q = {"hold": (1, 0), "cash": (0, 1000), "mix": (2.5, 100), "trade": (1, 50), "dust": (x * rng.choice([0, .3, 1, 3]) / ev[0]["p"][0], x)}[mode]
    for e in ev:
        if mode == "trade" and rng.random() < .3:
            b, q = rng.choice([(0, 100), (1, 0), (rng.random() * 3, rng.random() * 1000), (2, 10)])
        e["b"], e["q"] = f32(b), f32(q)
    return ev


def vol_case(rng, cid, n):
    per, t0 = rng.choice(PERIODS), T0(rng)
    ev = balances(rng, stream(rng, n, per, t0, style=rng.choice(["int", "dec", "dec", "flat", "ramp", "huge", "saw"])))
    return {"id": cid, "kind": "vol", "T0": t0, "period": per, "n": rng.choice([0, 0, 1, 2, 3, 5, 10]), "ev": ev}


def report_case(rng, cid, n):
    t0 = 1483228800 + rng.choice([0, 0, 3600, 12345])
    grid = rng.choice([3600, 7200, 14400, 300, DAY])
    ev, t, p = [], 0, rng.choice([100, 1000.0])
    dec = rng.random() < .6
    for i in range(n):
        c = max(10, p * (1 + rng.gauss(0, .02)) if dec else p + rng.randint(-8, 8))
        o, w = p, .01
        if rng.random() < .3:      # a jump between ticks, some of them of a single price
            w = rng.choice([0, .01])
            o = c
        ev.append({"t": t, "p": list(map(f32, [o, max(o, c) * (1 + w), min(o, c) * (1 - w), c, rng.choice([0, 5, 5, 5, 100])]))})
        p = c
        t += grid * rng.choice([1, 1, 1, 1, 1, 2, 30])
    months = 0
    s = e = 0
    if rng.random() < .3:                       # several periods
        months, s = 1, 1483228800
        e = s + DAY * 31 * rng.randint(2, 4)
        f = max(1, int(DAY * 100 / max(1, t)))
        for x in ev:
            x["t"] = x["t"] // grid * grid * f
    elif rng.random() < .3:
        s, e = t0 + t // 4, t0 + t // 4 * 3
    return {"id": cid, "kind": "report", "T0": t0, "eval": [s, e, months, int(rng.random() < .12)], "start": rng.choice([(1, 0), (0, 1000), (1, 500)]),
            "script": [rng.choice([0, 0, 0, 5, -5, 10, -10, 3]) for _ in range(rng.choice([1, 7, 20]))], "ev": ev}


# ------------------------------------------------------------------ world --
def with_gap(rng, c):
    """The stream with hundreds of silent periods in front of one of its ticks."""
    old = c["period"]
    per = rng.choice([old, DAY, 300, 900, 3600, 3600, 14400])
    k = rng.choice([60, 200, 200, 700, 2200 if per == 300 else 300])
    j = rng.randrange(1, len(c["ev"]))
    c["T0"] -= c["T0"] % old
    c["T0"] += -c["T0"] % per if c["T0"] else per
    c["period"] = per
    t = 0
    was = [e["t"] for e in c["ev"]]
    for i, e in enumerate(c["ev"]):         # the same ticks on a grid of the new period
        if i:
            d = was[i] // old - was[i - 1] // old
            t = t + rng.randint(0, per - 1 - t % per) if d == 0 else (t // per + d) * per + rng.choice([0, per - 1, rng.randint(0, per - 1)])
        if i == j:
            t += k * per
        e["t"] = t
    return c


def world_streams(w, rng, limit):
    """All streams of the world of AggregateMC (of at most three ticks), or a sample."""
    alph = list(itertools.product(w["steps"], w["shapes"]))
    full = [(o, s) for o in w["offsets"] for n in range(1, min(3, w["len"]) + 1) for s in itertools.product(alph, repeat=n)]
    use = full if len(full) <= limit else rng.sample(full, limit)
    out = []
    for o, s in use:
        t, ev = 0, []
        for i, (dt, sh) in enumerate(s):
            t += dt
            ev.append({"t": t, "p": list(sh)})
        out.append((o, ev))
    return out, len(full)


def world_case(w, cid, rng, P, off, ev):
    per = w["period"]
    c = {"id": cid, "T0": per * rng.choice([50, 741614400, 3 << 30]) + off, "period": per, "ev": [dict(e) for e in ev]}
    if P == "P26":
        return {**c, "kind": "agg", "n": rng.choice(w["windows"]), "mask": rng.choice([7, 7, 7, 1, 2, 4])}
    if P == "P28":
        k = rng.choice(["sma", "ema", "macd"])
        return {**c, "kind": k, "n": rng.choice([1, 2, 3]), "cfg": 2 if k == "ema" else [1, 3, rng.choice([1, 3])]}
    if P == "P29":
        return {**c, "kind": rng.choice(["rsi", "so"]), "n": rng.choice([1, 2, 3])}
    return {**c, "kind": "vol", "n": rng.choice([0, 1, 2]), "ev": balances(rng, c["ev"])}


def window_world(w, rng, limit):
    """All operation sequences of the world of WindowMC up to length four, or a sample."""
    alph = [(o, v) for o in "au" for v in w["values"]]
    full = [(n, s) for n in range(w["windows"] + 1) for k in range(1, min(5, w["len"]) + 1) for s in itertools.product(alph, repeat=k) if s[0][0] == "a"]
    use = full if len(full) <= limit else rng.sample(full, limit)
    return [{"id": "world-%d" % i, "kind": "win", "T0": 0, "n": n, "ev": [{"op": o, "v": v} for o, v in s]} for i, (n, s) in enumerate(use)], len(full)


def flat_case(rng, c, n, burn, p0=None):
    """The same behind that many flat periods."""
    c["period"] = rng.choice([60, 300, 3600])
    c["T0"] = 1483228800 + rng.randint(0, 10 ** 6)
    c["ev"] = stream(rng, len(c["ev"]), c["period"], c["T0"], style=rng.choice(["int", "saw", "dec", "ramp"]))
    c["flat"] = (burn, rng.choice([10, 50, 64, 100]))
    if n:
        c["n"] = n
    if c["kind"] == "vol":
        balances(rng, c["ev"])
        c["n"] = max(1, c["n"])
    return c


def flat_cases(rng, P, thorough):
    """Windows of hundreds of periods, and very many periods before the first recorded one."""
    mk = {"P26": [agg_case], "P28": [sma_case, ema_case, macd_case], "P29": [lambda r, i, n: osc_case(r, i, n, "rsi"), lambda r, i, n: osc_case(r, i, n, "so")],
          "P30": [vol_case]}[P]
    out = []
    for j, f in enumerate(mk):
        for i, w in enumerate([127, 255, 256, 257, 300] * (3 if thorough else 1)):
            out.append(flat_case(rng, f(rng, "wide-%d-%d" % (j, i), 12), w, w + rng.randint(-6, 4)))
        for i, b in enumerate([32760, 65528, 65531, 131066] * (4 if thorough else 1)):
            out.append(flat_case(rng, f(rng, "late-%d-%d" % (j, i), 20), 0, b))
    return out


def build(chk):
    return chk.builder.link("indicators", [HARNESS], ["base", "eval", "indicators", "logging", "util"], ("base", "eval"))


def run(chk):
    rng, P, k = chk.rng, chk.prop, chk.pick(2, 20)
    wf = os.path.join(vlib.scratch(), "world.json")
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(build, chk)
        m = "WindowMC" if P == "P27" else "AggregateMC"
        chk.model(m, (m + "deep.cfg" if chk.thorough else None) if P in ("P26", "P27") else "AggregateMCsmall.cfg", env={"WORLD_FILE": wf})
        if P in ("P28", "P29", "P30"):
            chk.model("IndicatorMC", "IndicatorMCdeep.cfg" if chk.thorough else None)
        if P == "P30":
            chk.model("DyadicMC")
        exe = exe_f.result()
    w = json.load(open(wf))
    limit = chk.pick(800, 20000)
    if P == "P27":
        cases, full = window_world(w, rng, limit)
    else:
        ss, full = world_streams(w, rng, limit if P != "P30" else limit // 4)
        cases = [world_case(w, "world-%d" % i, rng, P, o, ev) for i, (o, ev) in enumerate(ss)]
    chk.cov["world_behaviours_total"], chk.cov["world_behaviours_replayed"] = full, len(cases)
    size = lambda: rng.choice([2, 5, 15, 40])
    if P == "P26":
        cases += [agg_case(rng, "random-%d" % i, size()) for i in range(250 * k)]
        cases += [with_gap(rng, agg_case(rng, "gaps-%d" % i, 8)) for i in range(chk.pick(60, 400))]
        cases += [agg_case(rng, "long-%d" % i, chk.pick(250, 1000)) for i in range(4)]
    elif P == "P27":
        cases += [win_case(rng, "random-%d" % i, size()) for i in range(300 * k)]
        for i in range(chk.pick(4, 12)):        # after very many values
            c = win_case(rng, "burn-%d" % i, 40, rng.choice([1, 2, 5, 20]))
            c["burn"] = (rng.choice([32760, 65530, 70000, 140000]) + rng.randint(0, 9), rng.choice([1, 7, 0, 96]), 97)
            cases.append(c)
        for i in range(chk.pick(3, 12)):
            c = win_case(rng, "all-%d" % i, 40, 0)
            c["burn"] = (rng.choice([300, 1500, 4090, 5000, 17000, 33000, 70000, 140000]) + rng.randint(0, 9), rng.choice([1, 7, 5]), rng.choice([2, 3, 9]))
            cases.append(c)
        cases += [win_case(rng, "long-%d" % i, chk.pick(250, 1500), rng.choice([0, 1, 3, 20])) for i in range(6)]
        for i in range(10 * k):     # ramps much longer than the window: long queues of candidates
            n, up, upd = rng.choice([9, 17, 20, 33, 40, 65]), rng.choice([1, -1]), rng.choice([0, 0, .3])
            c = {"id": "ramp-%d" % i, "kind": "win", "T0": 0, "n": n, "ev": []}
            for j in range(3 * n):
                c["ev"].append({"op": "u" if j and rng.random() < upd else "a", "v": up * (j if rng.random() < .95 else rng.randint(0, j))})
            cases.append(c)
    elif P == "P28":
        for name, f, n in (("sma", sma_case, 80), ("ema", ema_case, 80), ("macd", macd_case, 100), ("emah", emah_case, 50)):
            cases += [f(rng, "%s-%d" % (name, i), size()) for i in range(n * k)]
            cases += [f(rng, "%s-long-%d" % (name, i), chk.pick(200, 1000)) for i in range(2)]
            if name != "emah":
                cases += [with_gap(rng, f(rng, "%s-gap-%d" % (name, i), 6)) for i in range(8 * k)]
    elif P == "P29":
        for kind in ("rsi", "so"):
            cases += [osc_case(rng, "%s-%d" % (kind, i), size(), kind) for i in range(130 * k)]
            cases += [osc_case(rng, "%s-long-%d" % (kind, i), chk.pick(200, 1000), kind) for i in range(2)]
            cases += [with_gap(rng, osc_case(rng, "%s-gap-%d" % (kind, i), 6, kind)) for i in range(8 * k)]
    else:
        cases += [vol_case(rng, "vol-%d" % i, rng.choice([2, 5, 15, 30])) for i in range(100 * k)]
        cases += [vol_case(rng, "vol-long-%d" % i, chk.pick(150, 600)) for i in range(2)]
        cases += [with_gap(rng, vol_case(rng, "vol-gap-%d" % i, 6)) for i in range(8 * k)]
        cases += [report_case(rng, "report-%d" % i, rng.choice([1, 3, 10, 40])) for i in range(60 * k)]
    if P != "P27":
        cases += flat_cases(rng, P, chk.thorough)
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"].split(".")[0]]
        return next(r for r in merge(c, vlib.drive(exe, [c], text, shards=1)[0]) if r["id"] == row["id"] or r["crash"])
    rows = [r for c, o in zip(cases, vlib.drive(exe, cases, text)) for r in merge(c, o)]
    chk.cov["events_checked"] = sum(len(r["ev"]) for r in rows)
    for r in rows[-2:]:
        chk.sample({**r, "ev": r["ev"][:3]})
    chk.assumptions += ["ticks arrive in time order with finite positive prices, low <= open, close <= high, and non-negative volume",
                        "rounding of single precision and the drift of running sums are allowed for as derived in DESIGN.md"]
    chk.validate("IndicatorsTrace", rows, redo=rerun)
