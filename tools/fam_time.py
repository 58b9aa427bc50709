"""Calendar (P31): Civil.tla bound to util/time.cc."""
import os
import concurrent.futures as cf
import vlib
HARNESS = os.path.join(vlib.VERIF, "harness", "time.cc")


def p2(n):
    return "%02d" % n


def fmt(f):
    k, y, m, d, h, mi, s, off = f
    date = "%d-%s-%s" % (y, p2(m), p2(d))
    time = "%s:%s:%s" % (p2(h), p2(mi), p2(s))
    o = "%s%s:%s" % ("-" if off < 0 else "+", p2(abs(off) // 60), p2(abs(off) % 60))
    return [None, date, date + " " + o, date + " " + time, date + " " + time + " " + o, date + "T" + time + o][k]


def text(c):
    out = []
    for o in c["ops"]:
        if o["k"] in ("parse", "garbage"):
            out.append("p " + o["text"])
        elif o["k"] == "fmt":
            out.append("f %d %d %d" % (*o["t"], o.get("ns", 0)))
        else:
            out.append("a %d %d %d" % (o["t"][0], o["t"][1], o["m"]))
    return "\n".join(out)


def merge(c, obs):
    if "crash" in obs:
        return {"id": c["id"], "ev": [{"k": "crash", "why": obs["crash"]}]}
    return {"id": c["id"], "ev": [{**o, **e} for o, e in zip(c["ops"], obs["ev"])]}


def rand_year(rng):
    return rng.choice([1970, 2000, 1900, 2100, 2016, 2017, 2020, 2021, 2023, 2024, 1999, 2400, rng.randint(1970, 2100), rng.randint(1000, 9999),
                       rng.randint(1, 9999)])


def rand_fields(rng, bad):
    y, m = rand_year(rng), rng.randint(1, 12)
    d = rng.choice([1, 28, 29, 30, 31, rng.randint(1, 31)])
    ml = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if not bad:
        d = min(d, ml[m - 1])
    h, mi, s = rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)])
    off = rng.choice([0, 60, -60, 330, -570, 845, -720, 1439, -1439, rng.randint(-1439, 1439)])
    k = rng.randint(1, 5)
    if bad:
        what = rng.choice(["m", "d", "d", "h", "mi", "s"])
        if what == "m":
            m = rng.choice([0, 13, 14, 99])
        elif what == "d":
            d = rng.choice([0, 32, ml[m - 1] + 1, ml[m - 1] + 1, 99])
        elif what == "h":
            h = rng.choice([24, 25, 99])
        elif what == "mi":
            mi = rng.choice([60, 61, 99])
        else:
            s = rng.choice([61, 70, 99])
    return [k, y, m, d, h, mi, s, off]


def garbage(rng):
    f = rand_fields(rng, False)
    t = fmt(f)
    k = rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 7])
    if k == 0:
        return t[:t.rindex("-", 0, 10)] if f[1] >= 1000 else "2017-01"
    if k == 1:
        return t + " " * rng.choice([0, 0, 0, 1, 20, 40, 100]) + rng.choice(["x", "!", " UTC+", ":00:00:00", " 7"])
    if k == 2:
        return rng.choice(["", "   ", "yesterday", "2017", "2017-01", "01/02/2017", "2017/01/02", "2017.01.02", "20170102", "12:00:00", "1483228800",
                           "now", "NaN", "2017-01-01 12:00", "2017-01-01 12", "2017-01-01T12:00:00", "2017-01-01T", "2017-Jan-01", "2017-01-01 +1",
                           "2017-01-01,00:00:00", "2017-01-01 00.00.00", "2017-01-01 10:20 +00:00", "2017-01-01 10 +00:00", "2017-01 +00:00", "2017-01-01T10:20+00:00", "2017-01-01T10:20:30", "20170101T102030Z", "20170101 10:20:30", "1483228800000", "@1483228800", "2017-W01-1", "2017-001", "2017-01-01 -12:60"])
    if k == 3:
        i = t.index("-", 1)
        return t[:i] + rng.choice(["/", ".", "", "--", " "]) + t[i + 1:]
    if k == 4:
        return "x" + t
    if k == 5:
        return fmt([3] + f[1:]) + rng.choice([" +25:00", " +12:60", " 05:00", " +99:99", " ++1:00"])
    if k == 6:
        return fmt([3] + f[1:]) + rng.choice([".5x", " AM", " pm", "Zulu"])
    return fmt([1] + f[1:]) + rng.choice(["T", " T", " 1", " 10:1x:00", " 10:11:", " :10:11"])


def rand_case(rng, cid, n):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < 0.45:
            f = rand_fields(rng, rng.random() < 0.3)
            if f[6] == 60:
                f[6] = 59
            ops.append({"k": "parse", "f": f, "text": fmt(f)})
        elif x < 0.55:
            ops.append({"k": "garbage", "text": garbage(rng)})
        else:
            day = rng.choice([rng.randint(-5000, 60000), rng.randint(-5000, 60000), rng.randint(10900, 19000), rng.randint(-800000, 3000000),
                              -719468 + 146097 * rng.randint(0, 9) + rng.randint(-3, 3)])
            s = rng.choice([0, 86399, rng.randint(0, 86399)])
            if x < 0.7:
                ops.append({"k": "fmt", "t": [day, s]})
                if rng.random() < .3:      # within a second
                    ops[-1]["ns"] = rng.choice([1, 300000000, 700000000, 999999999])
            else:
                m = rng.choice([0, 1, -1, 2, 11, 12, 13, -11, -12, -13, rng.randint(-40, 40), rng.randint(-40, 40), rng.randint(-5000, 5000)])
                ops.append({"k": "add", "t": [day, s], "m": m})
        o = ops[-1]
        while o["k"] in ("fmt", "add") and rng.random() < .4:      # and again, close by
            day, s = o["t"]
            s += rng.choice([0, 1, -1, 7, 30, 59, 60, -59, 3599])
            o = {**o, "t": [day + s // 86400, s % 86400]}
            if o["k"] == "add" and rng.random() < .3:
                o["m"] += rng.choice([1, -1, 12])
            if o["k"] == "fmt":
                o["ns"] = rng.choice([0, 0, 1, 500000000, 999999999])
            ops.append(o)
    return {"id": cid, "ops": ops}


def walk_case(cid, first, n, ks):
    """Every day of a stretch: format and month arithmetic (the walk of CivilMC)."""
    ops = []
    for i in range(n):
        d = first + i
        ops.append({"k": "fmt", "t": [d, d * 7919 % 86400]})
        ops += [{"k": "add", "t": [d, d * 104729 % 86400], "m": k} for k in ks]
    return {"id": cid, "ops": ops}


def run(chk):
    rng = chk.rng
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(chk.builder.link, "time", [HARNESS], ["util"], ["base"])
        chk.model("CivilMC", chk.pick("CivilMC.cfg", "CivilMCdeep.cfg"), workers=5)
        exe = exe_f.result()
    cases = [rand_case(rng, "rand-%d" % i, 60) for i in range(chk.pick(200, 4000))]
    # two full years around a leap day and century boundaries; thorough: 400 years
    for i, y0 in enumerate(chk.pick([16436, 10957 - 366, -25567, 47482 - 400], list(range(-25567, -25567 + 146097, 730)))):
        cases.append(walk_case("walk-%d" % i, y0, 731, [1, -1, 12] + [rng.randint(-30, 30)]))
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        return merge(c, vlib.drive(exe, [c], text, shards=1)[0])
    rows = [merge(c, o) for c, o in zip(cases, vlib.drive(exe, cases, text))]
    chk.cov["events_checked"] = sum(len(r["ev"]) for r in rows)
    for r in rows[:2]:
        chk.sample({**r, "ev": r["ev"][:6]})
    chk.validate("CivilTrace", rows, redo=rerun)
