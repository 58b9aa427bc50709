"""Price history functions (P19-P22): HistoryOps and Outliers bound to base/history and HistorySubset."""
import bisect, itertools, json, math, os, struct
import concurrent.futures as cf
import vlib
from num import f32, me, txt, nxt

HARNESS = os.path.join(vlib.VERIF, "harness", "history.cc")
CLAMP = 1 << 30


def real(c, x):
    """Time of a bound; one model time unit is K seconds (very long histories)."""
    return x if x <= 0 else c["T0"] + c.get("K", 1) * (x - c["T0"])


def units(c, t):
    """Observed time, in the model's units relative to T0."""
    q, r = divmod(t - c["T0"], c.get("K", 1))
    return clamp(q) if r == 0 else CLAMP - 1


def text(c):
    out = ["r %d %s %s" % (c["T0"] + c.get("K", 1) * t, txt(p), txt(v)) for t, p, v in c["recs"]]
    for op in c["ops"]:
        k = op[0]
        if k == "resample":
            out.append("resample %d" % op[1])
        elif k == "outliers":
            out.append("outliers %s %d %d %d" % (txt(op[1]), op[2], op[3], op[4]))
        elif k == "gaps":
            out.append("gaps %d %d %d" % (real(c, op[1]), real(c, op[2]), op[3]))
        else:
            out.append("subset %d %d" % (real(c, op[1]), real(c, op[2])))
    return "\n".join(out)


def clamp(x):
    return max(-CLAMP, min(CLAMP, x))


def merge(c, obs):
    op, T0 = c["ops"][0], c["T0"]
    ranks = {v: i for i, v in enumerate(sorted({f32(r[1]) for r in c["recs"]}))}
    byme = {tuple(me(v)): i for v, i in ranks.items()}
    row = {"id": c["id"], "crash": obs.get("crash", ""),
           "recs": [{"t": t, "p": me(f32(p)), "v": me(f32(v)), "rp": ranks[f32(p)]} for t, p, v in c["recs"]]}
    if "crash" in obs:
        return row
    rank = lambda m: byme.get(tuple(m), -1)
    bound = lambda x: [x - T0] if x > 0 else []
    if op[0] == "resample":
        rate = op[1]
        off = T0 % rate
        row.update(rate=rate, off=off, ticks=[], starts=[])
        ts = [r[0] for r in c["recs"]]
        for t, o, h, l, cl, v in obs["ticks"]:
            at = t - T0
            lo, hi = bisect.bisect_left(ts, at), bisect.bisect_left(ts, at + rate)
            row["ticks"].append({"t": clamp(at), "o": rank(o), "h": rank(h), "l": rank(l), "c": rank(cl), "v": v})
            row["starts"].append([lo + 1, hi])
    elif op[0] == "outliers":
        n = len(c["recs"])
        idx = obs["idx"]
        keep = [1] * n
        for i in idx:
            if 0 <= i < n:
                keep[i] = 0
        ids, kinds = [], {}
        for r in row["recs"]:   # equal records share an identity
            k = (r["t"], tuple(r["p"]), tuple(r["v"]))
            r["id"] = kinds.setdefault(k, len(kinds) + 1)
        row.update(dev=me(f32(op[1])), left=op[2], right=op[3], lastn=op[4], idx=[clamp(i) for i in idx], keep=keep, agree=obs["agree"],
                   increasing=all(a < b for a, b in zip(idx, idx[1:])) and all(0 <= i < n for i in idx),
                   clean=[kinds.get((clamp(t - T0), tuple(p), tuple(v)), 0) for t, p, v in obs["clean"]],
                   ctx=[[clamp(k), v] for k, v in obs["ctx"]])
    elif op[0] == "gaps":
        row.update(s=bound(op[1]), e=bound(op[2]), n=op[3], gaps=[[units(c, a), units(c, b)] for a, b in obs["gaps"]])
    else:
        row.update(s=bound(op[1]), e=bound(op[2]), sel=[dict(x, **{"from": clamp(x["from"]), "n": clamp(x["n"])}) for x in obs["sel"]])
    return row


# ------------------------------------------------------------- generation --
def ulps(x, k):
    """k single precision numbers above x > 0."""
    return struct.unpack("<f", struct.pack("<i", struct.unpack("<i", struct.pack("<f", x))[0] + k))[0]


def times(rng, n, span):
    out, t = [], 0
    for _ in range(n):
        out.append(t)
        t += span(rng)
    return out


SPANS = [lambda r: 1, lambda r: r.choice([0, 0, 1, 60, 60, 61, 59]), lambda r: r.randint(0, 40), lambda r: r.choice([1, 30, 300, 300, 299, 301, 3000]),
         lambda r: r.choice([0, 1, 5, 60, 86400, 900000]), lambda r: int(math.exp(r.uniform(0, 12)))]


def resample_case(rng, cid, n):
    rate = rng.choice([1, 2, 7, 60, 300, 300, 3600, 86400, rng.randint(1, 5000)])
    T0 = rng.choice([1, 7, 1483228800, 1613140009, 4102444800, rng.randint(1, 1 << 33)])
    span = rng.choice(SPANS)
    ts = times(rng, n, span)
    for i in range(n):                       # align some to interval boundaries
        if rng.random() < .3:
            ts[i] += (-(T0 + ts[i])) % rate - rng.choice([0, 0, 1])
    ts = sorted(max(0, t) for t in ts)
    top = 20000 if rng.random() < .02 else 1000
    if ts and ts[-1] // rate > top:          # keep the number of ticks moderate
        k = ts[-1] // rate // top + 1
        ts = [t // k for t in ts]
    mode = rng.choice(["int", "dec", "ulp"])
    p, recs = rng.choice([100, 4096, 30000]), []
    base = f32(p * rng.uniform(.5, 2))
    for t in ts:
        p = max(1, p + rng.randint(-9, 9))
        v = rng.choice([0, 1, rng.randint(0, 1000)])
        if mode == "ulp":      # neighbouring single precision numbers
            recs.append([t, ulps(base, rng.randint(-2, 2)), f32(v * rng.choice([1, rng.random()]))])
            continue
        recs.append([t, p * 1.0, v * 1.0] if mode == "int" else [t, f32(p * rng.uniform(.9, 1.1)), f32(v * rng.random())])
    return {"id": cid, "T0": T0, "recs": recs, "ops": [["resample", rate]]}


def holiday_case(rng, cid):
    """Silences of months between records, filled with empty ticks."""
    rate = rng.choice([21600, 43200, 86400, 604800, 50000, 14 * 86400, 30 * 86400, rng.randint(1, 50 * 86400)])
    T0 = rng.choice([1, 1483228800, 4102444800, rng.randint(1, 1 << 33)])
    t, recs = 0, []
    for _ in range(rng.randint(2, 12)):
        recs.append([t, float(rng.randint(1, 999)), float(rng.choice([0, 1, 7]))])
        t += rng.choice([0, 60, rate, rng.randint(1, 10 * rate), rate * rng.randint(20, 150), 86400 * rng.randint(31, 60) + rng.randint(-1, 1)])
        if t > 9 * 10 ** 8:
            break
    return {"id": cid, "T0": T0, "recs": recs, "ops": [["resample", rate]]}


def outlier_case(rng, cid, n):
    exact = rng.random() < .5
    dev = rng.choice([0.0, 1.0, 3.0, .5, .25]) if exact else rng.choice([.05, .05, .01, .2, .001, .5, 0.0])
    ts, t = [], 0
    rare = rng.choice([[], [], [86400 * 8], [86400 * 8, 86400 * 40, 86400 * 400]])
    for _ in range(n):
        ts.append(t)
        t += rng.choice([60, 60, 60, 240, 30, 0, 1, 59, 61, 120, 960] if exact else [60, 60, 0, 1, 10, 45, 61, 120, 600, 3600, 86400] + (rare if t < 9 * 10 ** 8 else []))
    p = 1024.0 if exact else math.exp(rng.uniform(-2, 10))
    recs, lvl, spike = [], p, 0
    rate = rng.choice([.02, .1, .3, .6])
    burst = rng.choice([1, 1, 2, 3, 4, 5, 11])
    for i, t in enumerate(ts):
        if spike == 0 and rng.random() < rate:
            spike = rng.randint(1, burst)
            dt = max(60, t - ts[i - 1]) if i else 60
            f = (1 + dev) * math.sqrt(dt / 60.0)
            f = rng.choice([f, f, f * rng.choice([1 + 1e-3, 1 - 1e-3, 1.1, .9, 2, 1 + 1e-6, 1 - 1e-6]), .8 * f + .2])
            top = lvl * f if rng.random() < .5 else lvl / f
            if rng.random() < .15:
                lvl, spike = top, 0
        if spike > 0:
            x = top * rng.choice([1, 1, 1, 1.01, .99, .8 + .2 / max(f, 1e-9)])
            spike -= 1
        else:
            if not exact:
                lvl *= math.exp(rng.gauss(0, .003))
            x = lvl
        v = rng.choice([1.0, .5, 0.0])
        r = rng.random()
        if r < .04:
            x = rng.choice([0.0, -1.0, -x])
        elif r < .07:
            v = rng.choice([-1.0, -1e-3])
        if abs(x) > 1e12:
            x = 1e6
        recs.append([t, f32(x), f32(v)])
        if r > .93:      # the same record once more (or several times)
            recs += [list(recs[-1]) for _ in range(rng.choice([1, 1, 2, 3, 10]))]
    ctx = [rng.choice([0, 1, 2, 5, 60, 100]), rng.choice([0, 1, 2, 5, 60, 200]), rng.choice([0, 0, 1, 2, 5, 1000])]
    return {"id": cid, "T0": rng.choice([1483228800, 1, 5000000000]), "recs": recs, "ops": [["outliers", dev] + ctx]}


def stretched(rng, c):
    """The same history with a longer time unit, up to spans of millions of years."""
    K = rng.choice([1, 1, 1, 100003, (1 << 31) - 1, 1 << 31, (1 << 33) + 1])
    top = max([r[0] for r in c["recs"]] + [abs(x - c["T0"]) for x in c["ops"][0][1:3] if x > 0] + [1])
    if K * top < 1 << 62 and all(x <= 0 or x >= c["T0"] for x in c["ops"][0][1:3]) and min([r[0] for r in c["recs"]] + [0]) >= 0:
        c["K"] = K
    return c


def gap_case(rng, cid, n):
    T0 = rng.choice([1000000, 1483228800, 5000000000])
    ts = times(rng, n, rng.choice(SPANS[:5] + [lambda r: r.choice([5, 5, 5, 10, 0])]))
    span = ts[-1] if ts else 10
    b = lambda: rng.choice([0, 0, -5, T0, T0 + span, T0 + span // 2, T0 - 100, T0 + span + 100, T0 + span + 10 ** 6, T0 - 10 ** 5])
    return stretched(rng, {"id": cid, "T0": T0, "recs": [[t, 1.0, 1.0] for t in ts], "ops": [["gaps", b(), b(), rng.choice([0, 1, 2, 3, 5, 10, n, n + 1, n + 2, 1000])]]})


def subset_case(rng, cid, n):
    T0 = rng.choice([0, 1, 1483228800, 5000000000])
    ts = times(rng, n, rng.choice(SPANS[:5]))
    if T0 == 0 and rng.random() < .5:
        ts = [t - rng.randint(0, 20) for t in ts]
        ts.sort()
    b = lambda: rng.choice([0, -1, -10 ** 9, 1, T0 + (rng.choice(ts) if ts else 0) + rng.choice([0, 0, 0, 1, -1, rng.randint(-50, 50)]),
                            T0 + (ts[-1] if ts else 0) + 1, 1 << 29])
    s, e = b(), b()
    lim = lambda x: x if x <= 0 or abs(x - T0) < CLAMP else T0 + 5
    return stretched(rng, {"id": cid, "T0": T0, "recs": [[t, float(i % 7 + 1), 1.0] for i, t in enumerate(ts)], "ops": [["subset", lim(s), lim(e)]]})


def runs_case(rng, cid, n):
    """Thousands of records with long runs of equal times."""
    ts, t = [], 0
    while len(ts) < n:
        ts += [t] * min(n - len(ts), rng.choice([1, 2, 40, 700, 3000]))
        t += rng.choice([1, 5, 60])
    T0 = rng.choice([1, 1483228800])
    b = lambda: rng.choice([0, T0 + ts[n // 2], T0 + ts[n // 2], T0 + ts[n // 2] + 1, T0 + ts[n // 2] - 1, T0 + rng.choice(ts), T0 + rng.choice([ts[n // 4], ts[3 * n // 4]])])
    return {"id": cid, "T0": T0, "recs": [[t, float(i % 7 + 1), 1.0] for i, t in enumerate(ts)], "ops": [["subset", b(), b()]]}


def bulk_case(rng, cid, P, n):
    """Long regular histories with a few silences and isolated spikes (HistoryBulkTrace)."""
    rate = rng.choice([240, 300, 3600])
    T0 = 1483228800 // 3600 * 3600
    far = [n - rng.randint(30, 300), n // 2 + rng.randint(0, 99), rng.randint(20, n // 3)]
    marks = sorted({m // 60 * 60 + 30: rng.choice([60, 7200, rate * rng.randint(1, 500), rng.randint(1, 10 ** 6)]) for m in rng.sample(far, rng.randint(0, 3))}.items())
    if P == "P19" and rng.random() < .6:
        marks = sorted((dict(marks) | {n // 3 // 60 * 60 + 30: rate * rng.choice([33000, 66000])}).items())
    if P == "P19":          # keep the ticks behind a silence in phase
        marks = [[m, e // 3600 * 3600 + 3600] for m, e in marks]
    if P == "P21":          # silences also where counters of 16 bits turn
        marks = sorted((dict(marks) | {m: rng.choice([60, 61, 3600, 10 ** 6]) for m in (1, 32768, 65535, 65536, n - 1) if rng.random() < .8}).items())
    gap = rng.choice([12, 50, 997]) if P == "P20" else 4999
    off = {m for m, _ in marks}
    spikes = [i for i in range(rng.randint(20, 40), n - 12, gap) if not any(m - 13 <= i <= m + 13 for m in off)] if P in ("P19", "P20") else []
    t, k, recs, sp, ex = 0, 0, [], set(spikes), dict(marks)
    for i in range(n):
        t += (60 if i else 0) + ex.get(i, 0)
        recs.append([t, 6400.0 if i in sp else 100 + (i % 4) / 8, 1.0])
    b = lambda: rng.choice([0, T0 + recs[-rng.randint(1, 4000)][0] + rng.choice([0, 1, -1]), T0 + recs[rng.randint(0, n - 1)][0]])
    op = {"P19": ["resample", rate], "P20": ["outliers", .05, rng.randint(0, 5), rng.randint(0, 5), rng.choice([0, 3, 1500])],
          "P21": ["gaps", 0, 0, rng.choice([10, 300, 1500, 4000, 4000])], "P22": ["subset", b(), b()]}[P]
    return {"id": cid, "T0": T0, "recs": recs, "ops": [op], "marks": [list(m) for m in marks], "spikes": spikes}


def bulk_row(c, obs):
    op, T0, recs = c["ops"][0], c["T0"], c["recs"]
    row = {"id": c["id"], "crash": obs.get("crash", ""), "n": len(recs), "marks": c["marks"], "spikes": c["spikes"]}
    if "crash" in obs:
        return row
    bound = lambda x: [x - T0] if x > 0 else []
    if op[0] == "resample":
        ranks = {tuple(me(f32(p))): i for i, p in enumerate([100, 100.125, 100.25, 100.375, 6400])}
        rank = lambda m: ranks.get(tuple(m), -1)
        counts, runs, reg = {}, [], 0
        for t, o, h, lo, cl, v in obs["ticks"]:
            if t != T0 + reg * op[1]:
                break
            if tuple(v) not in counts:
                counts[tuple(v)] = next((i for i in range(2000) if me(float(i)) == list(v)), -1)
            x = {"v": counts[tuple(v)], "o": rank(o), "h": rank(h), "l": rank(lo), "c": rank(cl)}
            if runs and all(runs[-1][q] == x[q] for q in x):
                runs[-1]["len"] += 1
            else:
                runs.append({"k": reg, "len": 1, **x})
            reg += 1
        row.update(rate=op[1], nticks=len(obs["ticks"]), regular=reg, runs=runs[:3000] + runs[-3000:] if len(runs) > 6000 else runs)
    elif op[0] == "outliers":
        idx = [clamp(i) for i in obs["idx"]]
        drop, same, j = set(idx), 0, 0
        keep = [r for i, r in enumerate(recs) if i not in drop]
        ms = {}
        m = lambda x: ms.setdefault(x, me(f32(x)))
        while same < min(len(keep), len(obs["clean"])) and obs["clean"][same] == [T0 + keep[same][0], m(keep[same][1]), m(keep[same][2])]:
            same += 1
        ctx = []
        for k, v in obs["ctx"]:
            if ctx and ctx[-1][1] == k - 1:
                ctx[-1][1] = k
            else:
                ctx.append([k, k])
        row.update(left=op[2], right=op[3], lastn=op[4], idx=idx, nclean=len(obs["clean"]), same=same, agree=obs["agree"],
                   marked=[k for k, v in obs["ctx"] if v], ctx=ctx)
    elif op[0] == "gaps":
        row.update(top=op[3], gaps=[[clamp(a - T0), clamp(b - T0)] for a, b in obs["gaps"]])
    else:
        row.update(s=bound(op[1]), e=bound(op[2]), sel=[dict(x, **{"from": clamp(x["from"]), "n": clamp(x["n"])}) for x in obs["sel"]])
    return row


def world_cases(w, P, rng, limit):
    """The histories of the design model."""
    T = list(range(w["maxt"] + 1))
    prices = sorted(w["prices"]) if P == "P19" else [1]
    hs = []
    for n in range(w["maxlen"] + 1):
        for ts in itertools.combinations_with_replacement(T, n):
            for ps in itertools.product(prices, repeat=n):
                hs.append([[t, float(p), 1.0] for t, p in zip(ts, ps)])
    bounds = [0] + [1000 + t for t in range(-1, w["maxt"] + 2)]
    if P == "P19":
        full = [(h, 1000 + o, ["resample", w["rate"]]) for h in hs for o in range(w["rate"])]
    elif P == "P21":
        full = [(h, 1000, ["gaps", s, e, n]) for h in hs for s in bounds for e in bounds for n in range(4)]
    else:
        full = [(h, 1000, ["subset", s, e]) for h in hs for s in bounds for e in bounds]
    use = full if len(full) <= limit else rng.sample(full, limit)
    return [{"id": "world-%d" % i, "T0": t0, "recs": h, "ops": [op]} for i, (h, t0, op) in enumerate(use)], len(full)


def run(chk):
    rng, P, k = chk.rng, chk.prop, chk.pick(1, 20)
    wf = os.path.join(vlib.scratch(), "world.json")
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(chk.builder.link, "history", [HARNESS], ["base"], ["base"])
        if P == "P20":
            chk.model("OutliersMC", "OutliersMCdeep.cfg" if chk.thorough else None)
        else:
            chk.model("HistoryMC", "HistoryMCdeep.cfg" if chk.thorough else None, env={"WORLD_FILE": wf})
        exe = exe_f.result()
    cases = []
    if P != "P20":
        cases, full = world_cases(json.load(open(wf)), P, rng, chk.pick(1500, 12000 if P == "P19" else 40000))
        chk.cov["world_behaviours_total"], chk.cov["world_behaviours_replayed"] = full, len(cases)
    if P == "P19":
        cases += [resample_case(rng, "random-%d" % i, rng.choice([1, 2, 5, 20, 60])) for i in range(chk.pick(250, 1000))]
        cases += [holiday_case(rng, "holiday-%d" % i) for i in range(chk.pick(25, 400))]
        cases += [resample_case(rng, "long-%d" % i, chk.pick(500, 1500)) for i in range(3)]
    elif P == "P20":
        cases += [outlier_case(rng, "random-%d" % i, rng.choice([0, 1, 4, 15, 40])) for i in range(chk.pick(700, 5000))]
        cases += [outlier_case(rng, "long-%d" % i, chk.pick(400, 2000)) for i in range(4)]
        lv = [0, 1, 2, 4, 8] if not chk.thorough else [0, 1, 2, 4, 8]
        for i in range(chk.pick(300, 6000)):    # coarse levels as in Outliers, real look-ahead
            n = rng.randint(1, 16)
            p = rng.choice([.1, .3, .6])
            base = rng.choice([1, 4])
            recs = [[60 * j, float(rng.choice(lv) if rng.random() < p else base), 1.0] for j in range(n)]
            cases.append({"id": "levels-%d" % i, "T0": 1000000, "recs": recs,
                          "ops": [["outliers", rng.choice([0.0, 1.0, .5]), rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)]]})
    elif P == "P21":
        cases += [gap_case(rng, "random-%d" % i, rng.choice([0, 1, 2, 5, 20, 60])) for i in range(300 * k)]
        cases += [gap_case(rng, "long-%d" % i, chk.pick(400, 1500)) for i in range(4)]
    else:
        cases += [subset_case(rng, "random-%d" % i, rng.choice([0, 1, 2, 5, 20, 100])) for i in range(500 * k)]
        cases += [subset_case(rng, "long-%d" % i, chk.pick(500, 2000)) for i in range(6)]
        cases += [runs_case(rng, "runs-%d" % i, rng.randint(4097, 9000)) for i in range(chk.pick(16, 60))]
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        return merge(c, vlib.drive(exe, [c], text, shards=1)[0])
    rows = [merge(c, o) for c, o in zip(cases, vlib.drive(exe, cases, text))]
    chk.cov["records"] = sum(len(r["recs"]) for r in rows)
    if P == "P20":
        chk.cov["removed_records"] = sum(len(r.get("idx", [])) for r in rows)
    if P == "P19":
        chk.cov["ticks"] = sum(len(r.get("ticks", [])) for r in rows)
    for r in rows[-2:]:
        chk.sample({**r, "recs": r["recs"][:5]})
    chk.assumptions += ["histories are sorted by time; prices and volumes are finite"]
    if not chk.validate("HistoryTrace", rows, redo=rerun):
        return
    bulk = [bulk_case(rng, "bulk-%d-%d" % (i, n), P, n) for i, n in enumerate(chk.pick([70000, 70000, 140000], [33000, 70000, 140000, 300000] * 4))]
    bid = {c["id"]: c for c in bulk}
    chk.cov["bulk_records"] = sum(len(c["recs"]) for c in bulk)
    chk.validate("HistoryBulkTrace", [bulk_row(c, o) for c, o in zip(bulk, vlib.drive(exe, bulk, text, shards=4))],
                 redo=lambda r: bulk_row(bid[r["id"]], vlib.drive(exe, [bid[r["id"]]], text, shards=1)[0]))
