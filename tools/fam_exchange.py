"""Exchange simulation (P08-P13): Exchange.tla bound to ExecuteTrader, SideInput and CsvLogger."""
import json, os, re
import concurrent.futures as cf
import vlib
import fam_ledger as fl

HARNESS = os.path.join(vlib.VERIF, "harness", "exchange.cc")
TYPES = fl.TYPES
NUM = re.compile(r"^-?\d+\.\d{3}$")


def otext(o):
    return "%d %d %d %d %d" % (TYPES.index(o["ty"]), o["sd"] == "SELL", o["kd"] == "quote", o["am"], o["pr"])


def text(c):
    g = c["cfg"]
    out = ["scale %s %d" % (" ".join(repr(x) for x in c["scale"]), c["T0"])]
    out.append("cfg %d %d %d %d %d %d %d %d %s" % (g["bu"], g["qu"], g["ln"], g["ld"], g["rn"], g["rd"], c["b0"], c["q0"],
                                               " ".join(" ".join(map(str, g["fees"][t])) for t in TYPES)))
    for r in c["runs"]:
        if "like" in r:
            out.append("like %d %d" % tuple(r["like"]))
            continue
        out.append("run %d %d %d %d" % (r["log"], r["fast"], r["hasside"], r.get("react", 0)))
        if r.get("burn"):
            out.append("burn %d" % r["burn"])
        if r.get("past"):
            out.append("past %d %d" % tuple(r["past"]))
        out += ["t " + " ".join(map(str, t)) for t in r["t"]]
        out += ["s %d %d %s" % (s["t"], len(s["x"]), " ".join(map(str, s["x"]))) for s in r["s"]]
        for k, es in enumerate(r.get("script", [])):
            out += ["e %d %s" % (k, otext(o)) for o in es]
        out += ["p " + otext(o) for o in r.get("pool", [])]
    if c.get("look"):
        out.append("run 0 1 1 0")
        out += ["s %d %d %s" % (s["t"], len(s["x"]), " ".join(map(str, s["x"]))) for s in c["ls"]]
        out.append("look %d" % len(c["look"]))
        out += ["%d %d" % tuple(q) for q in c["look"]]
    return "\n".join(out)


def num(s):
    """'12.345' -> 12345, '' -> -1, anything else -> None."""
    if s == "":
        return -1
    if not NUM.match(s):
        return None
    v = int(s.replace(".", ""))
    return v if abs(v) < 1 << 30 else 1 << 30


def csv_row(line, T0):
    f = line.split(",")
    bad = {"ok": False, "ts": 0, "t": [0] * 5, "a": [0] * 3, "o": "none", "ty": "", "sd": "", "ba": -1, "qa": -1, "pr": -1}
    if len(f) != 14 or not re.match(r"^\d+$", f[0]):
        return bad
    t, a, o = [num(x) for x in f[1:6]], [num(x) for x in f[6:9]], [num(x) for x in f[11:14]]
    if None in t + a + o or "" in f[1:9] or abs(int(f[0]) - T0) >= 1 << 30:
        return bad
    kind = "none" if f[9:14] == [""] * 5 else "order"
    return {"ok": True, "ts": int(f[0]) - T0, "t": t, "a": a, "o": kind, "ty": f[9], "sd": f[10],
            "ba": o[0], "qa": o[1], "pr": o[2]}


def merge(c, obs):
    row = {"id": c["id"], "tol": c["cfg"]["tol"], "bu": c["cfg"]["bu"], "common": c.get("common", 0), "same": bool(c.get("same")),
           "sb": c["scale"][0:2], "sq": c["scale"][2:4], "sp": c["scale"][4:6], "crash": obs.get("crash", ""),
           "ls": c.get("ls", []), "look": [], "runs": []}
    if "crash" in obs:
        return row
    row["look"] = obs["look"]
    prev = None
    for r, o in zip(c["runs"], obs["runs"]):
        if "like" in r:
            src, log = prev, r["like"][0]
        else:
            src, log, prev = r, r["log"], r
        d = {"t": src["t"], "s": src["s"], "hasside": bool(src["hasside"]), "seen": log == 1, "iscsv": log == 2,
             "ev": o["ev"], "start": o["start"], "res": o["res"], "nu": o["nu"], "ud": o["ud"], "rd": o["rd"], "past": o["past"],
             "ids": [e["em"] for e in o["ev"] if e["k"] == "upd"]}
        if log != 1:
            d["ev"] = [e for e in o["ev"] if e["k"] == "upd"] if c.get("common") else []
        if log == 2:
            d["nl"] = o["nl"]
            d["csv"] = [csv_row(x, c["T0"]) for x in o["xlog"]]
            # the empty states of the harness's trader have the numbers 3, 8, ..
            d["tl"] = [int(x[6:]) if re.match(r"^state \d{1,8}$", x) else i + 1 if x == "" and (i + 1) % 5 == 3 else 0
                       for i, x in enumerate(o["tlog"])]
        row["runs"].append(d)
    return row


# ------------------------------------------------------------- generation --
def rand_cfg(rng, decimal, mild=True):
    c = fl.rand_case(rng, "x", decimal, 0)
    cfg, scale = c["cfg"], c["scale"]
    if not decimal and mild:   # dyadic values small enough for the CSV comparison
        scale = rng.choice([[1, 8, 1, 4, 2, 1], [1, 1, 1, 4, 1, 4], [1, 4, 1, 16, 1, 4], [1, 1, 1, 1, 1, 1]])
    if not decimal and cfg["bu"] == 0:
        cfg["bu"] = 1
    return cfg, scale


def rand_ticks(rng, n, pmax, step, vmax, gap_p, start=0, pmin=1, weird=False):
    ts, out = start, []
    gap, long = 0, rng.random() < 0.1    # some histories have silences of hundreds of ticks
    for _ in range(n):
        t = fl.rand_tick(rng, pmax, step, vmax, pmin)
        if gap == 0 and rng.random() < gap_p:
            gap = rng.choice([1, 1, 2, 3, rng.randint(1, 12)])
            if long:
                gap = rng.choice([1, 25, 70, rng.randint(1, 300)])
        if gap > 0:
            gap -= 1
            t[4] = 0
        elif t[4] == 0:
            t[4] = rng.randint(1, 9)
        out.append([ts] + t)
        ts += rng.choice([300, 300, 300, 60, 1, 3600, 86400, 300 * rng.randint(1, 40)])
        if weird and rng.random() < 0.02:
            ts += rng.choice([86400 * 400, 20000000])
    return out


def rand_sides(rng, ticks, nsig, per, value=lambda r: r.randint(-1000, 1000)):
    """Records around the ticks: before, exactly at, one second off, bursts."""
    ts = set()
    first, last = (ticks[0][0], ticks[-1][0]) if ticks else (0, 1000)
    for t in ticks:
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, rng.randint(0, per)])):
            ts.add(t[0] + rng.choice([0, 0, -1, 1, rng.randint(-299, 299), rng.randint(-5000, 5000)]))
    for _ in range(rng.randint(0, 3)):
        ts.add(rng.randint(first - 90000, last + 90000))
    return [{"t": x, "x": [value(rng) for _ in range(nsig)]} for x in sorted(ts)]


def rand_batch(rng, cfg, acct, t, nmax, limb, limq, pmin, pmax, step):
    n = rng.choice([0, 1, 1, 2, 2, 3, rng.randint(0, nmax)] if nmax < 20 else [1, rng.randint(0, nmax), rng.randint(nmax // 2, nmax)])
    out, keys = [], set()
    while len(out) < n:
        o = fl.rand_order(rng, cfg, acct, t, max(4 * cfg["bu"], limb // 64), max(4 * cfg["qu"], limq // 64), pmin, pmax, step)
        for _ in range(200):
            k = json.dumps(o, sort_keys=True)
            if k not in keys:
                break
            o["am"] += 1
        keys.add(json.dumps(o, sort_keys=True))
        out.append(o)
        if rng.random() < 0.05 and len(out) < n:
            out.append(dict(o))  # adjacent identical twin
    return out


def rand_case(rng, cid, decimal, nticks, nmax=6, kind="plain", gap_p=0.2, twins=False):
    cfg, scale = rand_cfg(rng, decimal)
    limb, limq = (1 << 10, 1 << 14) if not decimal else (1 << 11, 1 << 18)
    step = cfg["ld"] if cfg["qu"] == 0 and not decimal else 1
    if not decimal and cfg["qu"] == 0:
        cfg["qu"] = 1
    pmin, pmax = (1, rng.choice([8, 30])) if not decimal else (30, 240)
    gb, gq = max(1, cfg["bu"]), max(1, cfg["qu"])
    b0, q0 = rng.randint(0, limb) // gb * gb, rng.randint(0, limq) // gq * gq
    if rng.random() < 0.1:
        b0 = 0
    if rng.random() < 0.06:    # nothing to trade with: the trader is still updated
        b0, q0 = 0, rng.choice([0, q0])
    ticks = rand_ticks(rng, nticks, pmax, 1, limb, gap_p, 0, pmin, weird=rng.random() < 0.2)
    if twins:                  # several ticks at the same time
        for i in range(1, len(ticks)):
            if rng.random() < 0.3:
                ticks[i][0] = ticks[i - 1][0]
    nsig = rng.choice([0, 1, 1, 2, 3, 3, rng.choice([9, 17, 20, 33])])
    sides = rand_sides(rng, ticks, nsig, 6) if ticks else []
    # signals exact in single precision
    sv = [1, 8]
    run = {"log": 1, "fast": int(rng.random() < 0.5), "hasside": int(rng.random() < 0.75), "t": ticks, "s": sides}
    script = []
    nt = len([t for t in ticks if t[5] != 0])
    tr = [t[1:] for t in ticks]
    for k in range(nt):
        t = rng.choice(tr[max(0, k - 2):k + 4] or tr)
        script.append(rand_batch(rng, cfg, (b0 or limb // 4, q0 or limq // 4), t, nmax, limb, limq, pmin, pmax, 1)
                      if rng.random() < 0.9 else [])
    run["script"] = script
    return {"id": cid, "cfg": cfg, "scale": scale + sv, "T0": rng.choice([1500000000, 1000000, 4102444800, 1613140009]),
            "b0": b0, "q0": q0, "runs": [run]}


def silent_case(rng, cid, decimal):
    """Orders that wait out a long silence and fill only behind it (or in its last ticks)."""
    c = rand_case(rng, cid, decimal, 270, nmax=2, gap_p=0)
    r = c["runs"][0]
    n0, gap, p = rng.randint(1, 5), rng.choice([21, 25, 33, 65, 101, 129, 250]), rng.randint(20, 24) if not decimal else rng.randint(100, 200)
    wake = rng.choice([gap, gap, gap - 1])
    for i, t in enumerate(r["t"][:n0 + gap + 1]):
        if i >= n0:
            x = [p + 1, p + 9, p - 9, p, 64] if i - n0 >= wake else [p] * 4 + [0]
            t[1:] = x[:4] + [0 if i < n0 + gap else 64]
    r["t"] = r["t"][:n0 + gap + rng.randint(1, 6)]
    c["b0"], c["q0"] = max(c["b0"], 64 * max(1, c["cfg"]["bu"])), max(c["q0"], 512 * max(1, c["cfg"]["qu"]))
    r["script"] = r["script"][:n0] + r["script"][n0 + gap:]
    gb = max(1, c["cfg"]["bu"])
    r["script"][n0 - 1] += [{"ty": ty, "sd": sd, "kd": "base", "am": gb * k, "pr": p + (up if (ty == "LIMIT") == (sd == "SELL") else -up)}
                            for k, (ty, sd, up) in enumerate(rng.sample([(a, b, u) for a in ("LIMIT", "STOP") for b in ("BUY", "SELL") for u in (3, 5, 8)], 4), 1)]
    return c


def busy_case(rng, cid, nticks, batch=6):
    """Thousands of executions: every order of every batch is small and affordable."""
    c = rand_case(rng, cid, False, nticks, gap_p=0)
    c["scale"] = [1, 8, 1, 4, 2, 1, 1, 8]
    c["cfg"] = fl.cfg_dict(1, 1, 0, 1, 1, 0, 1, [[0, 1, rng.choice([0, 1]), 0]] * 3)
    c["b0"], c["q0"] = 4096, 1 << 17    # printed numbers stay comparable in 32 bits
    r = c["runs"][0]
    r["t"] = [t[:1] + [4, 4, 4, 4] + [max(1, t[5])] for t in r["t"]]
    r["s"], r["hasside"] = [], 0
    r["script"] = [[{"ty": "MARKET", "sd": ["BUY", "SELL"][(i + k) % 2], "kd": "base", "am": 2 + (3 * i + k) % 5, "pr": 0} for k in range(batch)]
                   for i in range(nticks)]
    return c


def same_case(rng, cid, nticks, make=None):
    c = make(rng, cid, nticks) if make else rand_case(rng, cid, False, nticks)
    r = c["runs"][0]
    f = r["fast"]
    r["fast"] = 1
    # no logger, CSV logger, with / without volatility
    c["runs"] += [{"like": x} for x in rng.sample([[2, 1], [2, 0], [1, 0], [0, 1], [0, 0]], 4)]
    if not any(x["like"][0] == 2 for x in c["runs"][1:]):
        c["runs"].append({"like": [2, f]})
    c["same"] = True
    return c


def future_case(rng, cid, nticks):
    c = rand_case(rng, cid, rng.random() < 0.3, nticks)
    r = c["runs"][0]
    pool = [o for b in r.pop("script") for o in b][:40]
    r.update(react=1, pool=pool, hasside=1)
    n = rng.randint(1, max(1, nticks - 1))
    cut = r["t"][n - 1][0]
    t2 = [list(t) for t in r["t"]]
    mode = rng.choice(["all", "tick", "side", "cut", "extend", "next"])
    if mode in ("all", "tick"):
        new = rand_ticks(rng, rng.randint(0, nticks), 30 if max(t[2] for t in t2) <= 30 else 240, 1, 64, 0.3, cut + rng.choice([1, 300, 7200]),
                         1 if max(t[2] for t in t2) <= 30 else 30)
        t2 = t2[:n] + new
    elif mode == "next" and n < len(t2):     # only the very next tick changes
        x = fl.rand_tick(rng, max(t[2] for t in t2), 1, 64, 1)
        t2[n] = [t2[n][0]] + x
    elif mode == "cut":
        t2 = t2[:n]
    elif mode == "extend":
        t2 = t2 + rand_ticks(rng, rng.randint(1, 20), max(t[2] for t in t2), 1, 64, 0.3, t2[-1][0] + 300)
        n = len(r["t"])
        cut = r["t"][-1][0]
    s2 = [s for s in r["s"] if s["t"] <= cut]
    nsig = len(r["s"][0]["x"]) if r["s"] else 1
    if mode in ("all", "side"):
        x = cut
        for _ in range(rng.randint(0, 6)):
            x += rng.choice([1, 1, 300, rng.randint(1, 4000)])
            s2.append({"t": x, "x": [rng.randint(-1000, 1000) for _ in range(nsig)]})
    else:
        s2 = r["s"]
    r2 = dict(r, t=t2, s=s2)
    c["runs"].append(r2)
    for x in (r, r2):    # the same without a logger: what the trader is given and emits
        c["runs"].append(dict(x, log=0))
    c["common"] = n
    return c


def many_case(rng, cid, burn):
    """The same behind a long past: side records older than anything the run needs."""
    c = rand_case(rng, cid, False, 40, gap_p=0.1)
    r = c["runs"][0]
    r["s"] = [{"t": r["t"][0][0] - 1, "x": [5]}] + [{"t": s["t"], "x": [s["x"][0] if s["x"] else -s["t"] % 1000]} for s in r["s"] if s["t"] >= r["t"][0][0]]
    r.update(hasside=1, burn=burn)
    return c


def late_case(rng, cid, busy, n, decimal=False):
    """The same behind tens of thousands of traded ticks (and executions)."""
    c = busy_case(rng, cid, 40) if busy else rand_case(rng, cid, decimal, 40, gap_p=.1)
    if busy:
        c["cfg"]["fees"] = {t: [0, 1, 0, 0] for t in TYPES}
    r = c["runs"][0]
    r["log"], r["past"] = 1, [n, busy]
    return c


def look_case(rng, cid, n, q, x=None):
    ts, s = rng.randint(-1000, 1000), []
    x = x or rng.choice([0, 1, 2, 3, 3, rng.choice([9, 17, 33, 66])])
    for _ in range(n):
        s.append({"t": ts, "x": [rng.randint(-4000, 4000) for _ in range(x)]})
        ts += rng.choice([1, 1, 2, rng.randint(1, 50), rng.randint(1, 5000)])
    look = []
    idx = [r["t"] for r in s]
    for _ in range(q):
        if not idx:
            look.append([rng.randint(-100, 100), -1])
            continue
        hint = rng.choice([-1, rng.randint(-1, n - 1), n - 1, max(-1, n - 2), max(-1, n - 3), 0])
        near = hint + rng.choice([0, 0, 1, 1, 2, 2, 3, 4, rng.randint(0, 9), n])
        k = max(0, min(n - 1, near))
        t = idx[k] + rng.choice([0, 0, -1, 1, rng.randint(-10, 10), rng.randint(0, 6000)])
        if hint >= 0:
            t = max(t, idx[hint])
        look.append([t, hint])
    return {"id": cid, "cfg": fl.cfg_dict(1, 1, 0, 1, 1, 0, 1, [[0, 1, 0, 0]] * 3), "scale": [1, 1, 1, 1, 1, 1, 1, 8], "T0": 1500000000,
            "b0": 0, "q0": 0, "runs": [], "ls": s, "look": look}


def world_cases(world, rng, limit):
    """Tick and emission sequences of the design model's world."""
    import itertools
    lv = sorted(world["levels"])
    batches = [b for k in range(world["batch"] + 1) for b in itertools.product(lv, repeat=k)]
    full, out = 0, []
    seqs = list(itertools.product(itertools.product(lv, (0, 1)), repeat=world["nticks"]))
    combos = []
    for ts in seqs:
        nu = sum(x[1] for x in ts[:-1])
        full += len(batches) ** nu
    pick = rng.sample(seqs * max(1, limit // len(seqs) + 1), limit)
    seen = set()
    for ts in pick:
        nu = sum(x[1] for x in ts[:-1])
        sc = tuple(rng.choice(batches) for _ in range(nu))
        if (ts, sc) in seen:
            continue
        seen.add((ts, sc))
        combos.append((ts, sc))
    cfg = fl.cfg_dict(1, 1, 0, 1, 1, 0, 1, [[0, 1, 0, 0]] * 3)
    for i, (ts, sc) in enumerate(combos):
        ticks = [[300 * k, 4 * h, 4 * h, 1, 4 * h, 5 * v] for k, (h, v) in enumerate(ts)]
        script = [[{"ty": "LIMIT", "sd": "SELL", "kd": "base", "am": 1, "pr": 4 * p} for p in b] for b in sc]
        out.append({"id": "world-%d" % i, "cfg": cfg, "scale": [1, 1, 1, 1, 1, 1, 1, 1], "T0": 1500000000, "b0": world["funds"], "q0": 0,
                    "runs": [{"log": 1, "fast": 1, "hasside": 0, "t": ticks, "s": [], "script": script}]})
    return out, full, len(combos)


def run(chk):
    rng, P = chk.rng, chk.prop
    wf = os.path.join(vlib.scratch(), "world.json")
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(chk.builder.link, "exchange", [HARNESS], ["base", "eval", "indicators", "logging", "util"], ["base", "eval"])
        chk.model("ExchangeMC", env={"WORLD_FILE": wf}, workers=4)
        exe = exe_f.result()
    world = json.load(open(wf))
    cases = []
    k = chk.pick(1, 12)
    if P in ("P08", "P09", "P12"):
        w, full, used = world_cases(world, rng, chk.pick(900, 20000))
        cases += w
        chk.cov["world_behaviours_total"], chk.cov["world_behaviours_replayed"] = full, used
    if P in ("P08", "P09", "P11", "P12"):
        cases += [rand_case(rng, "exact-%d" % i, False, rng.choice([1, 3, 8, 20, 40]), gap_p=rng.choice([0, 0.2, 0.5])) for i in range(130 * k)]
        cases += [rand_case(rng, "decimal-%d" % i, True, rng.choice([1, 5, 20, 40]), gap_p=rng.choice([0, 0.3])) for i in range(70 * k)]
        cases += [rand_case(rng, "wide-%d" % i, i % 2 == 0, 12, nmax=40, gap_p=0.4) for i in range(20 * k)]
        cases += [rand_case(rng, "long-%d" % i, i % 2 == 0, chk.pick(700, 3000), gap_p=0.1) for i in range(chk.pick(3, 12))]
        cases += [rand_case(rng, "empty-%d" % i, i % 2 == 0, 0) for i in range(2)]
        cases += [silent_case(rng, "silent-%d" % i, i % 3 == 0) for i in range(8 * k)]
        cases += [busy_case(rng, "busy-%d" % i, chk.pick(1000, 2500)) for i in range(chk.pick(1, 3))]
        cases += [late_case(rng, "late-%d" % i, 0, 65536 - rng.randint(2, 38), i % 2) for i in range(chk.pick(2, 8))]
        cases += [late_case(rng, "latebusy-%d" % i, 1, n - rng.randint(0, 99) * 2) for i, n in enumerate([32765, 65533, 131071] * chk.pick(1, 3))]
        cases += [rand_case(rng, "flood-%d" % i, i % 2 == 0, 5, nmax=rng.choice([130, 260]), gap_p=0.2) for i in range(chk.pick(3, 12))]
        cases += [busy_case(rng, "crowd-%d" % i, 4, rng.choice([100, 130, 260])) for i in range(chk.pick(2, 8))]
        cases += [rand_case(rng, "twins-%d" % i, i % 3 == 0, rng.choice([3, 8, 20]), twins=True) for i in range(10 * k)]
    if P == "P11":
        cases += [look_case(rng, "look-%d" % i, rng.choice([0, 1, 2, 3, 4, 10, 60]), 120) for i in range(40 * k)]
        cases += [look_case(rng, "biglook-%d" % i, 1500, 150) for i in range(chk.pick(2, 20))]
        cases += [look_case(rng, "farlook-%d" % i, n, 150, 1) for i, n in enumerate([5000, 9000] * chk.pick(1, 4))]
        cases += [many_case(rng, "many-%d" % i, n) for i, n in enumerate([40000, 65530, 65560, 140000] * chk.pick(1, 3))]
        e = look_case(rng, "look-empty", 0, 40)
        cases.append(e)
    if P == "P13":
        cases += [same_case(rng, "same-%d" % i, rng.choice([0, 1, 3, 8, 20, 40])) for i in range(150 * k)]
        cases += [same_case(rng, "samelong-%d" % i, chk.pick(400, 2000)) for i in range(chk.pick(2, 10))]
        cases += [same_case(rng, "busy-%d" % i, chk.pick(1800, 4000), busy_case) for i in range(chk.pick(1, 2))]
    if P == "P10":
        cases += [future_case(rng, "future-%d" % i, rng.choice([2, 3, 8, 20, 40])) for i in range(260 * k)]
        cases += [future_case(rng, "futurelong-%d" % i, chk.pick(300, 1500)) for i in range(chk.pick(3, 10))]
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        return merge(c, vlib.drive(exe, [c], text, shards=1)[0])
    rows = [merge(c, o) for c, o in zip(cases, vlib.drive(exe, cases, text))]
    evs = [e for r in rows for x in r["runs"] for e in x["ev"]]
    chk.cov["events_checked"] = len(evs)
    chk.cov["executions"] = sum(e["k"] == "exec" for e in evs)
    chk.cov["trader_updates"] = sum(e["k"] == "upd" for e in evs)
    chk.cov["gap_ticks"] = sum(t[5] == 0 for r in rows for x in r["runs"] for t in x["t"])
    chk.cov["lookups"] = sum(len(r["look"]) for r in rows)
    for r in rows[:2]:
        chk.sample({**r, "runs": [{**x, "ev": x["ev"][:4]} for x in r["runs"][:1]]})
    chk.assumptions += ["the simulated trader is a deterministic function of what it is given",
                        "which active order fills is decided by the real account (its rules are P01-P07)"]
    ok = chk.validate("ExchangeTrace", rows, redo=rerun)
    if ok and P == "P10":   # the same for evaluation periods
        import fam_evaluate as fe
        fe.validate(chk, [fe.future_case(rng, "period-%d" % i) for i in range(chk.pick(150, 3000))], fe.build(chk))
