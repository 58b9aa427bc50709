"""Bundled traders (P17, P18): TraderRules bound to RebalancingTrader and StopTrader."""
import math, os, re
import concurrent.futures as cf
import vlib
from num import f32, me, txt, nxt

HARNESS = os.path.join(vlib.VERIF, "harness", "traders.cc")
ALPHAS, EPSS = [0.1, 0.3, 0.5, 0.7, 0.9], [0.01, 0.05, 0.1, 0.2]
MARGINS, INCS = [0.05, 0.1, 0.15, 0.2], [0.01, 0.05, 0.1]
REB_BATCH = [(a, e) for a in ALPHAS for e in EPSS]
STOP_BATCH = [(a, b, c, d) for a in MARGINS for b in MARGINS for c in INCS for d in INCS]
MILLI = re.compile(r"^-?\d+\.\d{3}$")


def build(chk):
    return chk.builder.link("traders", [HARNESS], ["traders"], ["base", "traders"])


def text(c):
    out = [c["how"] if c["how"] else "%s %s" % (c["kind"], " ".join(txt(x) for x in c["cfg"]))]
    for u in c["us"]:
        out.append("u %d %s %s %s %s %s %s %s %d %s" % (
            c["T0"] + u["t"], txt(u["x"][0]), txt(u["x"][1]), txt(u["x"][2]), txt(u["p"]), txt(u["x"][3]), txt(u["b"]), txt(u["q"]),
            len(u["sig"]), " ".join(txt(s) for s in u["sig"])))
    return "\n".join(out)


def milli(s):
    if not MILLI.match(s):
        return None
    v = int(s.replace(".", ""))             # thousandths, as millions and rest
    return [v // 10 ** 6, v % 10 ** 6] if 0 <= v < 10 ** 15 else None


def state(s, T0, kind):
    f = s.split(",")
    bad = {"ok": False, "ts": 0, "b": [0, 0], "q": [0, 0], "c": [0, 0], "mode": "", "stop": [0, 0]}
    if len(f) != (4 if kind == "reb" else 6) or not re.match(r"^\d+$", f[0]) or abs(int(f[0]) - T0) >= 1 << 30:
        return bad
    v = [milli(x) for x in f[1:4]] + ([milli(f[5])] if kind == "stop" else [[0, 0]])
    if None in v:
        return bad
    return {"ok": True, "ts": int(f[0]) - T0, "b": v[0], "q": v[1], "c": v[2], "mode": f[4] if kind == "stop" else "", "stop": v[3]}


def merge(c, obs):
    row = {"id": c["id"], "crash": obs.get("crash", ""), "cfg": [me(f32(x)) for x in c["cfg"]], "ev": [], "wit": []}
    if c["kind"] == "stop":
        row["wit"] = [me(math.log(1 + f32(c["cfg"][2])), 30), me(math.log(1 - f32(c["cfg"][3])), 30)]
    if "crash" in obs:
        return row
    for u, o in zip(c["us"], obs["ev"]):
        row["ev"].append({"t": u["t"], "b": me(f32(u["b"])), "q": me(f32(u["q"])), "p": me(f32(u["p"])), "o": o["o"],
                          "same": o["same"], "st": state(o["st"], c["T0"], c["kind"])})
    return row


def upd(rng, t, b, q, p):
    p = f32(p)
    return {"t": t, "b": f32(b), "q": f32(q), "p": p, "x": [p * rng.uniform(.8, 1.2), p * 1.3, p * .7, rng.choice([0, rng.uniform(0.1, 100), rng.uniform(0.1, 100), 1e-6, 1e9])],
            "sig": [rng.uniform(-5, 5) for _ in range(rng.choice([0, 0, 1, 3]))]}


def T0(rng):
    return rng.choice([1, 1000, 1483228800, 1613140009, 4102444800])


# -------------------------------------------------------------- rebalancing --
def exact_reb(rng, cid, n):
    """Portfolios at, just inside and just outside the band edges, in exact binary fractions."""
    while True:
        a, e = rng.randint(1, 15), rng.randint(1, 7)
        if a * (8 + e) * 2 < 4096:
            break
    us, t = [], 0
    for _ in range(n):
        V = rng.choice([1 << k for k in range(8, 12)])         # value in units
        edge = rng.choice([a * (8 + e), a * (8 - e)]) * V // 128 + rng.choice([0, 0, 0, 1, -1, rng.randint(-9, 9)])
        bp = min(V, max(0, edge))
        k = rng.randint(-4, 4)                                  # p = 2^k
        s = 2.0 ** rng.randint(-6, 3)                           # unit
        us.append(upd(rng, t, bp * s / 2.0 ** k, (V - bp) * s, 2.0 ** k))
        t += rng.choice([1, 300, 3600])
    return {"id": cid, "kind": "reb", "how": "", "cfg": [a / 16, e / 8], "us": us, "T0": T0(rng)}


def loguni(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def rand_reb(rng, cid, n, cfg=None, how=""):
    a, e = cfg or (rng.choice([rng.choice(ALPHAS), rng.uniform(.02, .98), rng.uniform(.9, .999)]),
                   rng.choice([rng.choice(EPSS), rng.uniform(.004, .3), rng.uniform(.3, .95)]))
    us, t = [], 0
    lo, hi = a * (1 - e), min(1, a * (1 + e))
    b = q = 1.0
    p = loguni(rng, 1e-2, 6e4)
    for _ in range(n):
        m = rng.choice(["inside", "inside", "any", "edge", "walk", "zero", "tiny", "far", "same"])
        V = loguni(rng, 1e-2, 4e5 if rng.random() < .8 else 1e9)
        if m in ("inside", "any", "edge"):
            s = rng.uniform(lo, hi) if m == "inside" else rng.random() if m == "any" else \
                rng.choice([lo, hi]) * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -1))
            s = min(1, max(0, s))
            b, q = s * V / p, (1 - s) * V
        elif m == "walk":
            p = min(4e5, max(1e-3, p * math.exp(rng.gauss(0, .1))))
        elif m == "zero":
            b, q = rng.choice([(V / p, 0), (0, V)])
        elif m == "tiny":
            x = rng.choice([1e-6, nxt(f32(1e-6), 1), nxt(f32(1e-6), -1), 2e-6, 5e-7, 1e-9])
            s = rng.uniform(lo, hi) / (1 - rng.uniform(lo, hi) * .999)
            b, q = (x, x * p / max(1e-9, s)) if rng.random() < .5 else (x * s / p, x)
        elif m == "far":      # band edges more than a hundred times away need a huge epsilon
            s = rng.uniform(lo, hi)
            b, q = s * V / p, (1 - s) * V
        if f32(b) <= 0 and f32(q) <= 0:
            b, q = 1.0, 1.0
        us.append(upd(rng, t, b, q, p))
        t += rng.choice([1, 300, 3600, 86400, 86400 * 30])
    return {"id": cid, "kind": "reb", "how": how, "cfg": [a, e], "us": us, "T0": T0(rng)}


def limits_reb(rng, cid):
    """Wide bands, so that the edges reach a hundredth or a hundredfold of the price."""
    a = rng.choice([.5, .9, .3, .7, .05, .12])
    e = rng.choice([.95, .98, .99, .995])
    us = []
    for t in range(12):
        r = 10 ** rng.uniform(-3, 3)         # b*p : q
        x = rng.choice([100.0, .01, 1.0]) * rng.choice([1, 1 + 1e-3, 1 - 1e-3, 1.01, .99, 1.1, .9])
        u = a * rng.choice([1 + e, 1 - e])
        if u < 1:
            r = u / (1 - u) / x              # edge price is x times the close
        p = loguni(rng, .1, 1000)
        us.append(upd(rng, 300 * t, r * 10 / p, 10, p) if r * 10 / p < 4e5 else upd(rng, 300 * t, 1, 10, p))
    return {"id": cid, "kind": "reb", "how": "", "cfg": [a, e], "us": us, "T0": T0(rng)}


# --------------------------------------------------------------------- stop --
def rand_stop(rng, cid, n, cfg=None, how=""):
    if cfg is None:
        cfg = tuple(rng.choice(v) for v in ([.05, .1, .15, .2, .5, 0, .01, .9], [.05, .1, .15, .2, .5, 0, .01, .9],
                                            [.01, .05, .1, .5, 1, 3, 0], [.01, .05, .1, .5, .9, 0]))
    us, t = [], 0
    big = rng.choice([1, 1, 1, 1e3, 1e6, 3e7])       # from retail to whole-market balances
    p = loguni(rng, .05, 2e4)
    b, q = rng.choice([(1, 0), (0, p), (1, p / 2), (.3, p)])
    b, q = b * big, q * big
    vol = rng.choice([.0001, .002, .01, .1])
    drift = rng.choice([0, 0, vol, -vol])
    flip = rng.choice([0, .02, .1, .5])
    grid = rng.choice([[300], [60], [1], [3599], [3600], [3601], [300, 300, 300, 3599, 3600, 3601, 1800, 7200, 86400], [1, 60, 300, 900, 1200]])
    for _ in range(n):
        p = min(2e6, max(1e-3, p * math.exp(rng.gauss(drift, vol))))
        if rng.random() < .03:
            p = min(2e5, max(1e-2, p * rng.choice([.5, .7, .9, 1.1, 1.4, 2])))
        if rng.random() < flip:
            b, q = rng.choice([(loguni(rng, 1e-3, 1e3), 0), (0, loguni(rng, .1, 1e5)), (1, p), (1, nxt(f32(p), 1)), (1, nxt(f32(p), -1)),
                               (2, 2 * p), (.5, p), (1, p * .99), (3 * rng.random(), p), (q / p, b * p)])
            if rng.random() < .3:
                b, q = b * big, q * big
            if b > 1e9 or q > 1e11 or f32(b) <= 0 and f32(q) <= 0:
                b, q = 1, 0
        us.append(upd(rng, t, b, q, p))
        t += rng.choice(grid)
    return {"id": cid, "kind": "stop", "how": how, "cfg": list(cfg), "us": us, "T0": T0(rng)}


def exact_stop(rng, cid, n):
    """Binary fractions: base worth exactly the quote balance, stop exactly at the threshold."""
    cfg = [rng.choice([.125, .25, .5]), rng.choice([.125, .25, .5]), rng.choice([.125, 1, 0]), rng.choice([.125, .5, 0])]
    us, t, p = [], 0, rng.choice([64, 256, 1024])
    for _ in range(n):
        p = min(4096, max(8, p * rng.choice([1, 1, 1, 2, .5]) + rng.choice([0, 0, 8, -8])))
        b = rng.choice([1, 2, .5])
        q = b * p + rng.choice([0, 0, 1, -1, 100, -b * p, 5000])
        us.append(upd(rng, t, b, max(0, q), p))
        t += rng.choice([300, 300, 3599, 3600])
    return {"id": cid, "kind": "stop", "how": "", "cfg": cfg, "us": us, "T0": T0(rng)}


def run(chk):
    rng, P, k = chk.rng, chk.prop, chk.pick(1, 14) if chk.prop == "P17" else chk.pick(4, 24)
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(build, chk)
        if P == "P17":
            chk.model("DyadicMC", "DyadicMCdeep.cfg" if chk.thorough else None)
            chk.model("RebalanceMC", "RebalanceMCdeep.cfg" if chk.thorough else None)
        else:
            chk.model("StopMC", "StopMCdeep.cfg" if chk.thorough else None)
        exe = exe_f.result()
    cases = []
    if P == "P17":
        cases += [exact_reb(rng, "exact-%d" % i, 12) for i in range(100 * k)]
        cases += [rand_reb(rng, "random-%d" % i, rng.choice([1, 5, 20])) for i in range(150 * k)]
        cases += [limits_reb(rng, "limits-%d" % i) for i in range(20 * k)]
        cases += [rand_reb(rng, "factory-%d" % i, 12, (.7, .05), "factory rebalancing") for i in range(5 * k)]
        cases += [rand_reb(rng, "batch-%d-%d" % (i, j), 6, cfg, "batch rebalancing %d" % j) for i in range(k) for j, cfg in enumerate(REB_BATCH)]
        cases += [rand_reb(rng, "long-%d" % i, chk.pick(300, 1500)) for i in range(2)]
    else:
        cases += [rand_stop(rng, "random-%d" % i, rng.choice([1, 3, 10, 40])) for i in range(160 * k)]
        cases += [exact_stop(rng, "exact-%d" % i, 20) for i in range(50 * k)]
        cases += [rand_stop(rng, "factory-%d" % i, 20, (.1, .1, .01, .1), "factory stop") for i in range(5 * k)]
        cases += [rand_stop(rng, "batch-%d" % j, 8, STOP_BATCH[j], "batch stop %d" % j)
                  for j in (range(144) if chk.thorough else rng.sample(range(144), 24))]
        cases += [rand_stop(rng, "long-%d" % i, chk.pick(300, 1500)) for i in range(3)]
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        return merge(c, vlib.drive(exe, [c], text, shards=1)[0])
    rows = [merge(c, o) for c, o in zip(cases, vlib.drive(exe, cases, text))]
    evs = [e for r in rows for e in r["ev"]]
    chk.cov["events_checked"] = len(evs)
    chk.cov["orders"] = sum(len(e["o"]) for e in evs)
    for r in rows[:2]:
        chk.sample({**r, "ev": r["ev"][:3]})
    chk.assumptions += ["balances and prices are finite floats, time strictly increases (the exchange guarantees it)",
                        "rounding of single precision is allowed for: 2^-20 relative"]
    chk.validate("TradersTrace", rows, redo=rerun)
