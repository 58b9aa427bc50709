"""Evaluation (P14, P15, period part of P10): Evaluate.tla bound to EvaluateTrader."""
import datetime, os
import concurrent.futures as cf
import vlib
import fam_ledger as fl
import fam_exchange as fx

HARNESS = os.path.join(vlib.VERIF, "harness", "evaluate.cc")
D = 86400
EPOCH = datetime.datetime(1970, 1, 1)


def add_months(d0, t, k):
    """Only used to place interesting ticks; the oracle is EvaluateOps.tla."""
    x = EPOCH + datetime.timedelta(days=d0, seconds=t)
    m = x.year * 12 + x.month - 1 + k
    y = EPOCH.replace(year=m // 12, month=m % 12 + 1, day=1) + datetime.timedelta(days=x.day - 1)
    return (y - EPOCH).days * D + (t % D) - d0 * D


def text(c):
    g, a = c["eval"], c["cfg"]
    out = ["scale %s %d" % (" ".join(repr(x) for x in c["scale"]), c["T0"])]
    out.append("cfg %d %d %d %d %d %d %d %d %s" % (a["bu"], a["qu"], a["ln"], a["ld"], a["rn"], a["rd"], c["b0"], c["q0"],
                                               " ".join(" ".join(map(str, a["fees"][t])) for t in fl.TYPES)))
    out.append("eval %d %d %d %d" % (c["T0"] + g["s"] if not g["s0"] else 0, c["T0"] + g["e"] if not g["e0"] else 0, g["n"], c["fast"]))
    if c["hasside"]:
        out.append("side")
    if "t2" in c:
        out.append("two")
    for k in ("t", "t2"):
        out += ["%s %s" % (k, " ".join(map(str, t))) for t in c.get(k, [])]
    for k in ("s", "s2"):
        out += ["%s %d %d %s" % (k, s["t"], len(s["x"]), " ".join(map(str, s["x"]))) for s in c.get(k, [])]
    out += ["p " + fx.otext(o) for o in c["pool"]]
    return "\n".join(out)


def merge(c, obs):
    cut = lambda T: [[t[0], t[5]] + t[1:5] for t in T]
    clamp = lambda x: max(-2000000000, min(2000000000, x))   # as the harness reports it (absent bounds far away)
    row = {"id": c["id"], "cfg": {**c["eval"], "s": clamp(c["eval"]["s"]), "e": clamp(c["eval"]["e"])}, "t": cut(c["t"]), "s": c["s"], "t2": cut(c.get("t2", [])), "s2": c.get("s2", []),
           "crash": obs.get("crash", "")}
    if row["crash"]:
        row.update(rows=[], fed=[], res={"periods": []}, res2={"periods": []})
    else:
        row.update(rows=obs["rows"], fed=obs["fed"], res=obs["res"], res2=obs.get("res2", {"periods": []}))
    return row


def windows(g):
    if g["n"] <= 0:
        return [(g["s"], g["e"])]
    out = []
    for k in range(200):
        s = add_months(g["d0"], g["s"], k)
        e = add_months(g["d0"], s, g["n"])
        if e > g["e"]:
            break
        out.append((s, e))
    return out


def rand_case(rng, cid, big=False):
    cfg, scale = fx.rand_cfg(rng, False)
    if cfg["qu"] == 0:
        cfg["qu"] = 1
    d0 = rng.choice([17167, 10957, 18262, 16436, 19000, rng.randint(4000, 24000), rng.randint(24800, 47000), 24837, 29219])
    early = rng.random() < 0.08         # the evaluation starts before 1970
    if early:
        d0 = rng.choice([366, 1461, rng.randint(31, 2000)])
    gb, gq = max(1, cfg["bu"]), max(1, cfg["qu"])
    b0, q0 = rng.randint(0, 300) // gb * gb, (1 + rng.randint(gq, 4000) // gq) * gq
    # start: 1st of a month, end of month, mid-month with time of day
    start = rng.choice([0, add_months(d0, 0, rng.randint(0, 5)), rng.choice([28, 29, 30]) * D, 58 * D, 59 * D, rng.randint(0, 60) * D,
                        rng.randint(0, 60) * D + rng.randint(1, D - 1)])
    n = rng.choice([0, 0, 1, 1, 1, 2, 3, 6, 12, -1, 13, 24])
    total = rng.choice([0, 1, 2, 3, 5, 8, 14, 26] if not big else [36, 60])
    if early:
        start = -(d0 + rng.choice([0, 1, 31, 365, rng.randint(1, 2000)])) * D - rng.choice([0, 0, rng.randint(1, D)])
        n, total = rng.choice([1, 2, 3, 12, 24]), (d0 - start // D) // 30 + rng.choice([-d0 // 30, 0, 2, 14])
    end = add_months(d0, add_months(d0, start, total), max(0, n) if rng.random() < 0.5 else 0) + rng.choice([0, 0, 0, 1, -1, 3600, -D, 10 * D])
    if rng.random() < 0.04:
        end = start - rng.choice([0, 1, D])
    g = {"s": start, "e": end, "n": n, "d0": d0, "s0": False, "e0": False}
    if n <= 0 and rng.random() < 0.2 and not early and d0 < 23000:   # the epoch stays in reach
        g["s0"] = rng.random() < 0.6
        g["e0"] = True
    if g["s0"]:
        g["s"] = -d0 * D
    if g["e0"]:
        g["e"] = -d0 * D
        if not g["s0"]:
            # end_timestamp_sec 0 is not before any end: a single unbounded period
            pass
    w = windows(g)
    pts = set()
    for s, e in rng.sample(w, min(len(w), 40)):
        for x in (s, e):
            if rng.random() < 0.4:
                pts.update(x + d for d in rng.sample([0, -1, 1, -300, 300], 2))
        for _ in range(rng.choice([0, 0, 1, 3])):
            if e > s:
                pts.add(rng.randint(s, e - 1))
    lo, hi = start - 40 * D, max(end, start) + 40 * D
    if rng.random() < 0.5:
        step = rng.choice([D, D, 7 * D, 3600 * 7, 31 * D])
        x = rng.randint(lo, max(lo, hi))
        for _ in range(rng.choice([5, 20, 40])):
            pts.add(x)
            x += step
    for _ in range(rng.choice([0, 0, 2, 10])):
        pts.add(rng.randint(lo, hi))
    if rng.random() < 0.05:
        pts = set()
    pts = sorted(x for x in pts if x + d0 * D > 0)
    ticks = []
    for x in pts:
        t = fl.rand_tick(rng, 16, 1, 256, 1)
        if rng.random() < 0.7:
            t[4] = max(1, t[4])
        ticks.append([x] + t)
    s = fx.rand_sides(rng, ticks[:60], rng.choice([0, 1, 2]), 2) if ticks else []
    s = [x for x in s if x["t"] + d0 * D > 0]
    pool = []
    for _ in range(12):
        pool += fx.rand_batch(rng, cfg, (b0 or 50, q0), (rng.choice(ticks)[1:] if ticks else [4, 6, 2, 3, 9]), 3, 256, 4000, 1, 16, 1)
    return {"id": cid, "cfg": cfg, "scale": scale + [1, 8], "T0": d0 * D, "b0": b0, "q0": q0, "eval": g, "fast": int(rng.random() < 0.5),
            "hasside": int(rng.random() < 0.7), "t": ticks, "s": s, "pool": pool}


def growth_case(rng, cid, many=False):
    """Many periods with a large gain or loss in each: the product of the period scores
    leaves single precision (within double precision: up to 2^900)."""
    while True:
        c = rand_case(rng, cid)
        if not c["eval"]["s0"] and not c["eval"]["e0"] and (not many or 4000 < c["eval"]["d0"] < 24000):
            break
    n, g = rng.choice([255, 256, 257, 300, 400] if many else [20, 60, 119]), c["eval"]
    g.update(n=1, s=0, e=add_months(g["d0"], 0, n))
    k = min(20, 900 // n)
    way = rng.choice([1, -1, 0])
    ticks = []
    for i in range(n):
        s = add_months(g["d0"], 0, i)
        a, b = 16 << rng.randint(0, 3), 16 << rng.randint(k - 2, k)
        if way < 0 or (way == 0 and rng.random() < .5):
            a, b = b, a
        ticks += [[s + rng.randint(0, D), a, a, a, a, 9], [s + rng.randint(D + 1, 20 * D), b, b, b, b, 9]]
    c.update(t=ticks, s=[], pool=c["pool"] if rng.random() < .3 else [], b0=0 if rng.random() < .5 else max(c["b0"], max(1, c["cfg"]["bu"])))
    return c


def decades_case(rng, cid):
    """Monthly (and longer) periods over up to 34 years, a few ticks a year."""
    while True:
        c = rand_case(rng, cid)
        if not c["eval"]["s0"] and not c["eval"]["e0"] and 4000 < c["eval"]["d0"] < 24000:
            break
    g, years = c["eval"], rng.choice([11, 21, 26, 34])
    g.update(n=rng.choice([1, 1, 2, 6, 12, 36, 120, rng.randint(121, 12 * years)]), s=rng.choice([0, rng.randint(0, 40) * D]))
    g["e"] = add_months(g["d0"], g["s"], 12 * years) + rng.choice([0, 0, D, -D])
    pts = sorted(set(rng.randint(0, years * 365 * D) for _ in range(5)) | set(rng.randint((years - 2) * 365 * D, years * 365 * D) for _ in range(12)))
    ticks = []
    for x in pts:
        t = fl.rand_tick(rng, 16, 1, 256, 1)
        t[4] = max(1, t[4])
        ticks.append([x] + t)
    c.update(t=ticks, s=[])
    return c


def future_case(rng, cid):
    while True:
        c = rand_case(rng, cid)
        w = [x for x in windows(c["eval"]) if any(x[0] <= t[0] < x[1] for t in c["t"])]
        if w and not c["eval"]["s0"] and not c["eval"]["e0"]:
            break
    s, e = rng.choice(w)
    t2, keep = [], rng.random() < 0.5
    for t in c["t"]:
        if s <= t[0] < e:
            t2.append(t)
        elif rng.random() < (0.8 if keep else 0.3):
            t2.append([t[0]] + fl.rand_tick(rng, 16, 1, 256, 1) if rng.random() < 0.7 else t)
    for _ in range(rng.randint(0, 4)):
        x = rng.choice([s - 1, e, e + 1, s - rng.randint(1, 90 * D), e + rng.randint(0, 90 * D)])
        if x + c["T0"] > 0 and all(t[0] != x for t in t2):
            t2.append([x] + fl.rand_tick(rng, 16, 1, 256, 1))
    c["t2"] = sorted(t2)
    c["s2"] = [x for x in c["s"] if x["t"] < e]
    if c["s"] and rng.random() < 0.5:
        c["s2"] = c["s2"] + [{"t": e + k * 1000, "x": [7] * len(c["s"][0]["x"])} for k in range(3)]
    return c


def validate(chk, cases, exe):
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        return merge(c, vlib.drive(exe, [c], text, shards=1)[0])
    rows = [merge(c, o) for c, o in zip(cases, vlib.drive(exe, cases, text))]
    chk.cov["evaluations"] = len(rows)
    chk.cov["periods_checked"] = sum(len(r["res"]["periods"]) for r in rows)
    for r in rows[:2]:
        chk.sample(r)
    return chk.validate("EvaluateTrace", rows, redo=rerun)


def build(chk):
    return chk.builder.link("evaluate", [HARNESS], ["base", "eval", "indicators", "util"], ["base", "eval"])


def run(chk):
    rng = chk.rng
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(build, chk)
        chk.model("EvaluateMC", workers=4)
        exe = exe_f.result()
    cases = [rand_case(rng, "eval-%d" % i) for i in range(chk.pick(400, 8000))]
    cases += [rand_case(rng, "evalbig-%d" % i, True) for i in range(chk.pick(6, 60))]
    cases += [growth_case(rng, "growth-%d" % i) for i in range(chk.pick(16, 150))]
    cases += [growth_case(rng, "many-%d" % i, True) for i in range(chk.pick(5, 40))]
    cases += [decades_case(rng, "decades-%d" % i) for i in range(chk.pick(12, 200))]
    validate(chk, cases, exe)
