"""Account ledger (P01-P07): Ledger.tla bound to base/account.cc."""
import json, os
import concurrent.futures as cf
import vlib

TYPES = ["MARKET", "STOP", "LIMIT"]
TRADE = ["BUY", "SELL"]
HARNESS = os.path.join(vlib.VERIF, "harness", "ledger.cc")


def ceil_div(a, b):
    return -((-a) // b)


def cfg_dict(bu, qu, tol, ln, ld, rn, rd, fees):
    return {"bu": bu, "qu": qu, "tol": tol, "ln": ln, "ld": ld, "rn": rn, "rd": rd,
            "fees": dict(zip(TYPES, fees)) if isinstance(fees, list) else fees}


def mk_case(cid, cfg, scale, init, ops, limb, limq, pmax, pmin):
    return {"id": cid, "cfg": cfg, "scale": scale, "init": {"b": init[0], "q": init[1], "f": 0}, "ops": ops,
            "limb": limb, "limq": limq,
            "xb": 2 * (limb + limq * cfg["ld"] // max(1, pmin) + 64), "xq": 2 * (limq + limb * pmax + 4096)}


def text(c):
    g, s = c["cfg"], c["scale"]
    out = ["scale " + " ".join(repr(x) for x in s)]
    if "fine" in c:
        out.append("fine %d %d" % c["fine"])
    fees = " ".join(" ".join(map(str, g["fees"][t])) for t in TYPES)
    out.append("cfg %d %d %d %d %d %d %d %d %d %d %s" % (g["bu"], g["qu"], g["ln"], g["ld"], g["rn"], g["rd"],
                                                       c["init"]["b"], c["init"]["q"], c["limb"], c["limq"], fees))
    for o in c["ops"]:
        if o["k"] == "start":
            out.append("start")
        elif o["k"] == "set":
            out.append("set %d %d %d" % tuple(o["a"]))
        elif o["k"] == "order":
            out.append("o %d %d %d %d %d %d %s" % (o["direct"], TYPES.index(o["o"]["ty"]), o["o"]["sd"] == "SELL",
                                                 o["o"]["kd"] == "quote", o["o"]["am"], o["o"]["pr"],
                                                 " ".join(map(str, o["t"]))))
        elif o["k"] == "fee":
            out.append("fee %d %d" % (TYPES.index(o["ty"]), o["qa"]))
        elif o["k"] == "prices":
            out.append("prices %d %d %s" % (o["p"], g["ld"], " ".join(map(str, o["t"]))))
    return "\n".join(out)


def merge(c, obs):
    row = {k: c[k] for k in ("id", "cfg", "init", "xb", "xq")}
    if "crash" in obs:
        row["ev"] = [{"k": "crash", "why": obs["crash"]}]
        return row
    ev = []
    for o, r in zip(c["ops"], obs["ev"]):
        e = dict(r)
        if o["k"] == "order":
            e["o"], e["t"] = o["o"], o["t"]
        elif o["k"] == "fee":
            e["qa"], e["fs"] = o["qa"], c["cfg"]["fees"][o["ty"]]
        elif o["k"] == "prices":
            e["p"], e["t"] = o["p"], o["t"]
        ev.append(e)
    row["ev"] = ev
    return row


# ------------------------------------------------------------- generation --
def world_cases(world, rng, limit):
    """Every (configuration, grid account, order, tick) of the model's world."""
    cases, combos = [], []
    for ci, cfg in enumerate(world["configs"]):
        cfg = dict(cfg)
        cfg["fees"] = {t: list(v) for t, v in cfg["fees"].items()}
        gb, gq = max(1, cfg["bu"]), max(1, cfg["qu"])
        for b in range(0, 6, gb):
            for q in range(0, 17, gq):
                for o in world["orders"]:
                    # whole-micro fills only, when there is no base unit
                    if cfg["bu"] == 0 and o["kd"] == "quote":
                        continue
                    for t in world["ticks"]:
                        if cfg["bu"] == 0 and o["ty"] == "LIMIT" and cfg["rn"] * t[4] % cfg["rd"]:
                            continue
                        combos.append((ci, cfg, b, q, o, t))
    full = len(combos)
    if limit and full > limit:
        combos = rng.sample(combos, limit)
        combos.sort(key=lambda x: x[0])
    by = {}
    for x in combos:
        by.setdefault(x[0], []).append(x)
    for ci, xs in by.items():
        for off in range(0, len(xs), 120):
            ops = []
            for (_, cfg, b, q, o, t) in xs[off:off + 120]:
                ops.append({"k": "set", "a": [b, q, 0]})
                ops.append({"k": "order", "direct": (b + q + o["am"]) & 1, "o": o, "t": list(t)})
            cases.append(mk_case("world-%d-%d" % (ci, off), xs[0][1], [1, 1, 1, 1, 1, 1], (0, 0), ops, 64, 64, 16, 1))
    return cases, full, len(combos)


def rand_fees(rng, d_choices, rmax, fixmax, qu):
    out = []
    for _ in range(3):
        d = rng.choice(d_choices)
        r = rng.choice([0, 1, 1, rng.randint(1, rmax)])
        if r > d:
            r = d
        fix = rng.choice([0, 0, rng.randint(1, fixmax)])
        mn = rng.choice([0, 0, rng.randint(1, fixmax * 2)])
        out.append([r, d, fix, mn])
    return out


def rand_tick(rng, pmax, step=1, vmax=4096, pmin=1):
    n = pmax // step
    lo0 = max(1, ceil_div(pmin, step))
    base = rng.randint(lo0, n)
    width = rng.choice([0, 1, 2, max(1, n // 8), n])
    lo = rng.randint(max(lo0, base - width), base)
    hi = rng.randint(base, min(n, base + width))
    o, c = rng.randint(lo, hi), rng.randint(lo, hi)
    if rng.random() < 0.3:
        o = rng.choice([lo, hi])
    v = rng.choice([0, rng.randint(0, 16), rng.randint(0, vmax), rng.randint(0, vmax)])
    return [o * step, hi * step, lo * step, c * step, v]


def exec_price(cfg, o, t):
    op, hi, lo = t[0], t[1], t[2]
    far = hi if o["sd"] == "BUY" else lo
    if o["ty"] == "LIMIT":
        return o["pr"], 1
    near = op
    if o["ty"] == "STOP":
        near = max(o["pr"], op) if o["sd"] == "BUY" else min(o["pr"], op)
    return cfg["ln"] * near + (cfg["ld"] - cfg["ln"]) * far, cfg["ld"]


def fee_of(cfg, ty, q):
    r, d, fix, mn = cfg["fees"][ty]
    n = max(mn * d, fix * d + q * r)
    return ceil_div(n, d * cfg["qu"]) * cfg["qu"] if cfg["qu"] else ceil_div(n, d)


def edge(rng, u, limit):
    """Close to a multiple of u: on it, or a few micros off."""
    return max(1, min(limit, rng.randint(1, max(1, limit // u // 2)) * u + rng.choice([-3, -2, -1, -1, 0, 1, 1, 2, 3])))


def rand_order(rng, cfg, acct, t, limb, limq, pmin, pmax, step=1, kinds=("base", "quote")):
    ty = rng.choice(TYPES)
    sd = rng.choice(["BUY", "SELL"])
    kd = rng.choice(kinds)
    if ty == "MARKET":
        pr = rng.choice([0, 0, rng.randint(pmin, pmax)])
    else:
        pr = rng.choice([t[0], t[1], t[2], t[3], t[1] + step, max(step, t[2] - step), rng.randint(max(1, t[2] // step), t[1] // step) * step,
                         rng.randint(max(1, pmin // step), max(1, pmax // step)) * step])
        pr = max(pmin, min(pmax, pr))
    b, q = acct
    bu, qu = max(1, cfg["bu"]), max(1, cfg["qu"])
    o = {"ty": ty, "sd": sd, "kd": kd, "am": 1, "pr": pr}
    P, D = exec_price(cfg, o, t)
    if kd == "base":
        opts = [rng.randint(1, max(1, limb // 4)), rng.randint(1, 4 * bu), bu, bu * 3]
        if b > 0:
            opts += [b, b + bu, max(1, b - bu), rng.randint(1, b), b + max(1, bu // 2)]
        if P > 0 and q > 0:
            aff = q * D // P
            opts += [max(1, aff), max(1, aff // bu * bu), aff + bu, rng.randint(1, aff + 1)]
        if ty == "LIMIT" and cfg["rn"]:
            opts += [max(1, t[4] * cfg["rn"] // cfg["rd"])] * 2
        if bu > 100:
            opts += [edge(rng, bu, limb), edge(rng, bu, limb), edge(rng, bu, 4 * bu)]
        if qu > 100 and P > 0:   # the cost is just off a quote unit
            opts += [max(1, edge(rng, qu, limq // 2) * D // P) for _ in range(3)]
    else:
        opts = [rng.randint(1, max(1, limq // 4)), rng.randint(1, 4 * qu), qu, qu * 2]
        if q > 0:
            opts += [q, q, q + qu, max(1, q - qu), rng.randint(1, q), q + max(1, qu // 2)]
        if b > 0:
            opts += [max(1, b * P // D), rng.randint(1, max(1, b * P // D))]
        fee = fee_of(cfg, ty, 1)
        opts += [max(1, fee), fee + qu, fee + 1, max(1, fee - 1)]
        if qu > 100:
            opts += [edge(rng, qu, limq), edge(rng, qu, limq), edge(rng, qu, 4 * qu)]
        if bu > 100 and P > 0:   # the amount bought or sold is just off a base unit
            opts += [max(1, edge(rng, bu, limb // 2) * P // D + rng.choice([-1, 1]) * fee) for _ in range(2)]
    o["am"] = max(1, min(rng.choice(opts), limb if kd == "base" else limq))
    return o


def rand_case(rng, cid, decimal, length, shape=None):
    fine, kinds = (0, 0), ("base", "quote")
    if not decimal:
        ld = rng.choice([1, 1, 2, 4])
        ln = rng.randint(0, ld)
        pmin, pmax = 1, rng.choice([4, 16, 60])
        limb, limq = 1 << 12, 1 << 16
        zero_b, zero_q = rng.random() < 0.15, rng.random() < 0.15
        bu = 0 if zero_b else rng.choice([1, 1, 2, 3, 8, 10])
        qu = 0 if zero_q else rng.choice([1, 1, 2, 5, 8, 10])
        step = ld if qu == 0 else 1
        pmin = step
        pmax = max(pmax, 4 * step)
        fees = rand_fees(rng, [1, 2, 16, 64], 4, 40, qu)
        if qu == 0:  # whole fees only
            fees = [[rng.choice([0, 0, 1]), 1, f[2], f[3]] for f in fees]
        eb, eq = rng.choice([-24, -10, -3, 0, 0, 4, 10]), rng.choice([-16, -7, 0, 0, 3, 12])
        scale = [2.0 ** eb, 1, 2.0 ** eq, 1, 2.0 ** (eq - eb), 1]
        rn, rd = rng.choice([(0, 1), (0, 1), (1, 1), (1, 2), (3, 4), (1, 16), (3, 2), (4, 1)])
        tol = 0
        if shape == "coarse":    # a unit is many micros: amounts close to a unit boundary
            ld, ln, pmin, pmax, step = 1, rng.randint(0, 1), 1, rng.choice([4, 16, 60]), 1
            limb, limq = 1 << 15, 1 << 20
            bu, qu = rng.choice([(1, 4096), (1000, 1), (4096, 1), (256, 1000), (1000, 4096), (1, 65536), (1, 1000)])
            fees = rand_fees(rng, [1, 16, 64], 3, 40, qu)
            for f in fees:
                f[2] = rng.choice([0, f[2], 1, qu - 1, qu + 1, 3 * qu + 1, 2 * qu])
                f[3] = rng.choice([0, f[3], 1, 2 * qu - 1, 2 * qu + 1])
        elif shape == "fine":    # a micro is very many units (amounts of more than 2^31 units)
            ld, ln, pmin, pmax, step = 1, rng.randint(0, 1), 1, rng.choice([4, 16, 60]), 1
            bu = qu = 1
            fine = rng.choice([(0, 20), (0, 24), (21, 0), (24, 0), (21, 21), (40, 40), (0, 60), (60, 0)])
            if fine[0]:
                kinds = ("base",)
            fees = [[rng.choice([0, 0, 1]), 1, f[2], f[3]] for f in fees]
    else:
        ld = rng.choice([1, 1, 2, 4])
        ln = rng.randint(0, ld)
        scale, qunit, limb, limq, pmin, pmax = rng.choice([
            ([1, 100, 1, 1000, 1, 10], 10, 1 << 11, 1 << 20, 20, 480),
            ([1, 100000, 1, 10000, 10, 1], 100, 1 << 12, 1 << 20, 60, 240),
            ([1, 1000, 1, 100000, 1, 100], 1000, 1 << 12, 1 << 20, 30, 240)])
        zero_b, zero_q = rng.random() < 0.2, rng.random() < 0.2
        bu = 0 if zero_b else rng.choice([1, 1, 5, 10])
        qu = 0 if zero_q else qunit
        step = 1
        fees = rand_fees(rng, [200, 1000, 400, 100], 5, 4 * qunit, qu)
        rn, rd = rng.choice([(0, 1), (1, 1), (1, 10), (1, 2), (2, 1)])
        tol = 1
    cfg = cfg_dict(bu, qu, tol, ln, ld, rn, rd, fees)
    gb, gq = max(1, bu), max(1, qu)
    b0, q0 = rng.randint(0, limb // 2) // gb * gb, rng.randint(0, limq // 2) // gq * gq
    ops = [{"k": "start"}]
    acct = (b0, q0)
    n = 0
    while n < length:
        x = rng.random()
        t = rand_tick(rng, pmax, step, limb, pmin)
        if tol == 0 and bu == 0 and rn:
            t[4] = t[4] // rd * rd  # whole volume cap
        if fine[0] and rn:
            t[4] = t[4] // rd * rd
        if x < 0.35:
            acct = (rng.choice([0, rng.randint(0, 8) * gb, rng.randint(0, limb // 2) // gb * gb]),
                    rng.choice([0, rng.randint(0, min(40, limq // gq)) * gq, rng.randint(0, limq // 2) // gq * gq]))
            off = rng.random() < 0.05
            a = [acct[0] + (rng.randint(0, gb - 1) if off else 0), acct[1] + (rng.randint(0, gq - 1) if off else 0),
                 rng.choice([0, rng.randint(0, min(100, limq // gq)) * gq])]
            ops.append({"k": "set", "a": a})
        if x > 0.93:
            ops.append({"k": "fee", "ty": rng.choice(TYPES), "qa": rng.randint(0, limq // 2)})
        elif x > 0.86:
            ops.append({"k": "prices", "p": rng.randint(max(1, pmin // step), pmax // step) * step, "t": t})
        else:
            o = rand_order(rng, cfg, acct, t, limb, limq, pmin, pmax, step, kinds)
            # exactly affordable / one unit short
            if o["kd"] == "base" and o["sd"] == "BUY" and rng.random() < 0.35:
                P, D = exec_price(cfg, o, t)
                am = min(o["am"], 64 * gb)
                am = max(gb, am // gb * gb)
                o["am"] = am
                cost = ceil_div(am * P, D * gq) * gq
                tot = cost + fee_of(cfg, o["ty"], cost) + rng.choice([-gq, 0, 0, gq])
                if 0 <= tot <= limq:
                    ops.append({"k": "set", "a": [acct[0], tot, 0]})
                    acct = (acct[0], tot)
            if tol == 0 and bu == 0 and o["kd"] == "quote":
                continue  # covered with tol = 1
            ops.append({"k": "order", "direct": int(rng.random() < 0.4), "o": o, "t": t})
            n += 1
        if x < 0.1:
            acct = (acct[0] // 2, acct[1] // 2)
    c = mk_case(cid, cfg, scale, (b0, q0), ops, limb, limq, pmax, pmin)
    if fine != (0, 0):
        c["fine"] = fine
    if shape == "coarse":
        c["xq"] += length * 8 * qu
    return c


def drift_case(rng, cid, length):
    """A long uninterrupted trading history in decimal units: nothing may accumulate."""
    scale, qunit, limb, limq, pmin, pmax = rng.choice([
        ([1, 100, 1, 1000, 1, 10], 10, 1 << 11, 1 << 20, 20, 480),
        ([1, 100000, 1, 10000, 10, 1], 100, 1 << 12, 1 << 20, 60, 240)])
    bu, qu = rng.choice([1, 1, 5]), qunit
    fees = [[rng.choice([1, 2, 5]), 1000, rng.choice([0, qu, 3 * qu]), 0] for _ in range(3)]
    cfg = cfg_dict(bu, qu, 1, 1, rng.choice([1, 2]), 0, 1, fees)
    b, q = limb // 2 // bu * bu, limq // 4 // qu * qu
    init = (b, q)
    ops = [{"k": "start"}]
    mid = (pmin + pmax) // 2
    for _ in range(length):
        mid = max(pmin + 2, min(pmax - 2, mid + rng.randint(-2, 2)))
        t = [mid, mid + rng.randint(0, 2), mid - rng.randint(0, 2), mid, 0]
        sell = b * mid > q if rng.random() < 0.7 else rng.random() < 0.5
        n = rng.randint(1, max(1, (b if sell else q // mid) // (8 * bu))) * bu
        kd = rng.choice(["base", "quote"])
        o = {"ty": rng.choice(TYPES), "sd": "SELL" if sell else "BUY", "kd": kd, "am": n if kd == "base" else max(qu, n * mid), "pr": mid}
        ops.append({"k": "order", "direct": int(rng.random() < 0.4), "o": o, "t": t})
        b, q = (b - n, q + n * mid * 99 // 100) if sell else (b + n, q - n * mid * 101 // 100)
        b, q = max(0, min(b, limb)), max(0, min(q, limq))
    return mk_case(cid, cfg, scale, init, ops, limb, limq, pmax, pmin)


def oneway_case(rng, cid, length, side):
    """Thousands of equal orders in one direction: rounding errors all have the same sign."""
    scale = rng.choice([[1, 1, 1, 100, 1, 100], [1, 10, 1, 100, 1, 10], [1, 100, 1, 10, 10, 1]])
    pr = rng.randint(11, 97)
    fee = [[0, 1, rng.choice([1, 3, 7, 9]), 0], [0, 1, 0, rng.choice([3, 7, 9])], [1, rng.choice([10, 20]), 0, 1]]
    rng.shuffle(fee)
    cfg = cfg_dict(1, 1, 1, 1, 1, 0, 1, fee)
    limb, limq = 1 << 14, 1 << 21
    t = [pr, pr, pr, pr, 0]
    o = [{"ty": ty, "sd": side, "kd": "base", "am": 1, "pr": pr} for ty in TYPES]
    fixed = rng.choice([0, 1, 2, None])
    ops = [{"k": "start"}]
    for _ in range(length):
        ops.append({"k": "order", "direct": int(rng.random() < 0.4), "o": o[rng.randrange(3) if fixed is None else fixed], "t": t})
    init = (0, limq // 2) if side == "BUY" else (limb // 2, 0)
    return mk_case(cid, cfg, scale, init, ops, limb, limq, pr, pr)


def twin_cases(rng, cid):
    """The same orders under other fees, one right after the other."""
    c = rand_case(rng, cid + "a", rng.random() < .5, 1)
    c["unit"] = cid
    out = [c]
    for j in range(rng.choice([1, 2])):
        f = {t: list(x) for t, x in c["cfg"]["fees"].items()}
        for t in rng.sample(TYPES, rng.randint(1, 3)):
            f[t][2] += rng.choice([1, 2, 5]) * max(1, c["cfg"]["qu"])
        c = {**c, "id": cid + "bc"[j], "cfg": {**c["cfg"], "fees": f}}
        out.append(c)
    return out


def brim_case(rng, cid, length):
    """Balances of millions of units, orders that need all of it or one unit more."""
    limb, limq = 1 << 21, 1 << 23
    pmax = rng.choice([1, 2, 3, 4])
    fees = [[rng.choice([0, 0, 1]), rng.choice([64, 256, 1024]), rng.choice([0, 1, 3]), rng.choice([0, 0, 5])] for _ in range(3)]
    cfg = cfg_dict(1, 1, 0, rng.randint(0, 1), 1, 0, 1, fees)
    scale = rng.choice([[1, 1, 1, 1, 1, 1], [2.0 ** -7, 1, 2.0 ** -7, 1, 1, 1], [2.0 ** -17, 1, 1, 1, 2.0 ** 17, 1]])
    ops = [{"k": "start"}]
    for _ in range(length):
        t = rand_tick(rng, pmax, 1, limb, 1)
        o = {"ty": rng.choice(TYPES), "sd": rng.choice(TRADE), "kd": rng.choice(["base", "base", "quote"]), "am": 1, "pr": rng.randint(1, pmax)}
        P, _ = exec_price(cfg, o, t)
        n = rng.randint(limb // 2, limb - 2)
        off = rng.choice([-1, 0, 1, 1])
        if o["kd"] == "base":
            o["am"] = n
            tot = n * P + fee_of(cfg, o["ty"], n * P) if P > 0 else n
            acct = [rng.randint(0, 9), tot - off] if o["sd"] == "BUY" else [n - off, rng.randint(0, 9)]
        else:
            o["am"] = n * rng.randint(1, 3)
            acct = [rng.randint(0, 9), o["am"] - off] if o["sd"] == "BUY" else [n, rng.randint(0, 9)]
        if max(acct[0], o["am"] if o["kd"] == "base" else 0) > limb or max(acct[1], 0) > limq or (o["kd"] == "quote" and o["am"] > limq):
            continue
        ops.append({"k": "set", "a": acct + [0]})
        ops.append({"k": "order", "direct": int(rng.random() < .4), "o": o, "t": t})
    return mk_case(cid, cfg, scale, (1, 1), ops, limb, limq, pmax, 1)


def run(chk):
    rng = chk.rng
    wf = os.path.join(vlib.scratch(), "world.json")
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(chk.builder.link, "ledger", [HARNESS], ["base"], ["base"])
        chk.model("LedgerMC", env={"WORLD_FILE": wf}, workers=4)
        exe = exe_f.result()
    world = json.load(open(wf))
    cases, full, used = world_cases(world, rng, chk.pick(6000, None))
    cases += [rand_case(rng, "exact-%d" % i, False, rng.choice([4, 10, 20])) for i in range(chk.pick(260, 6000))]
    cases += [rand_case(rng, "coarse-%d" % i, False, rng.choice([10, 20]), "coarse") for i in range(chk.pick(160, 3000))]
    cases += [rand_case(rng, "fine-%d" % i, False, rng.choice([10, 20]), "fine") for i in range(chk.pick(80, 1500))]
    cases += [rand_case(rng, "decimal-%d" % i, True, rng.choice([4, 10, 20])) for i in range(chk.pick(160, 4000))]
    cases += [rand_case(rng, "long-%d" % i, i % 2 == 0, chk.pick(400, 3000)) for i in range(chk.pick(4, 24))]
    cases += [drift_case(rng, "drift-%d" % i, chk.pick(400, 1500)) for i in range(chk.pick(8, 60))]
    cases += [oneway_case(rng, "oneway-%d" % i, chk.pick(4000, 8000), TRADE[i % 2]) for i in range(chk.pick(4, 16))]
    cases += [brim_case(rng, "brim-%d" % i, 12) for i in range(chk.pick(60, 1500))]
    for i in range(chk.pick(120, 2000)):
        cases += twin_cases(rng, "twin-%d" % i)
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        return merge(c, vlib.drive(exe, [c], text, shards=1)[0])
    rows = [merge(c, o) for c, o in zip(cases, vlib.drive(exe, cases, text))]
    orders = [e for r in rows for e in r["ev"] if e["k"] == "order"]
    chk.cov["world_transitions_total"] = full
    chk.cov["world_transitions_replayed"] = used
    chk.cov["events_checked"] = sum(len(r["ev"]) for r in rows)
    chk.cov["orders_executed"] = sum(e["ok"] for e in orders)
    chk.cov["orders_refused"] = sum(not e["ok"] for e in orders)
    for r in rows[-3:]:
        chk.sample({**r, "ev": r["ev"][:3]})
    chk.assumptions += ["exact regime: all values are binary fractions with at most 24 significant bits, so single "
                        "precision is exact; decimal regime: relative error allowance 2^-19"]
    chk.validate("LedgerTrace", rows, redo=rerun)
