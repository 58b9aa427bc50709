"""Batch evaluation (P16): Batch.tla bound to EvaluateBatchOfTraders."""
import itertools, json, os
import concurrent.futures as cf
import vlib
import fam_evaluate as fe
import fam_ledger as fl
import fam_exchange as fx

HARNESS = os.path.join(vlib.VERIF, "harness", "batch.cc")


def names(c):
    """Traders whose names coincide are still different traders."""
    return [i // c.get("alias", 1) for i in c["ids"]]


def text(c):
    out = [fe.text(c)] + ["%s %d %s" % (k, len(c["ids"]), " ".join(map(str, v))) for k, v in (("ids", c["ids"]), ("names", names(c)))]
    if c["order"]:
        out.append("order %d %s" % (len(c["order"]), " ".join(map(str, c["order"]))))
    if c["nap"]:
        out.append("nap %d" % c["nap"])
    if c.get("slow"):
        out.append("slow %d" % c["slow"])
    return "\n".join(out)


def merge(c, obs):
    row = {"id": c["id"], "ids": c["ids"], "names": names(c), "order": c["order"][:50], "crash": obs.get("crash", ""), "got": [], "alone": []}
    row.update({k: obs[k] for k in ("got", "alone") if k in obs})
    return row


def base(rng, cid, nt):
    """A small evaluation whose every tick is traded, nt updates per trader."""
    c = fe.rand_case(rng, cid)
    c["eval"].update(s=0, n=0, s0=False, e0=False, e=86400 * 70, d0=17167)
    c["T0"] = 17167 * 86400
    ticks, ts = [], 0
    for _ in range(nt):
        t = fl.rand_tick(rng, 16, 1, 256, 1)
        t[4] = max(1, t[4])
        ticks.append([ts] + t)
        ts += rng.choice([300, 3600, 86400])
    c["t"], c["s"], c["hasside"] = ticks, fx.rand_sides(rng, ticks, 1, 2), int(rng.random() < 0.8)
    c.update(nap=0, order=[])
    return c


def run(chk):
    rng = chk.rng
    wf = os.path.join(vlib.scratch(), "world.json")
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(chk.builder.link, "batch", [HARNESS], ["base", "eval", "indicators", "util"], ["base", "eval"])
        chk.model("BatchMC", env={"WORLD_FILE": wf}, workers=4)
        exe = exe_f.result()
    w = json.load(open(wf))
    n, steps = w["n"], w["steps"]
    allorders = sorted(set(itertools.permutations([i for i in range(1, n + 1) for _ in range(steps)])))
    chk.cov["schedules_total"] = len(allorders)
    if not chk.thorough:
        allorders = rng.sample(allorders, 240)
    chk.cov["schedules_replayed"] = len(allorders)
    cases = []
    for i, o in enumerate(allorders):
        c = base(rng, "schedule-%d" % i, steps)
        c.update(ids=list(range(1, n + 1)), order=list(o))
        cases.append(c)
    for i in range(chk.pick(60, 1500)):   # more traders and updates, random interleavings
        k, m = rng.randint(1, 7), rng.choice([1, 4, 12, 30])
        c = base(rng, "mixed-%d" % i, m)
        c["ids"] = rng.sample(range(1, 50), k)
        if rng.random() < 0.3:
            c["ids"][rng.randrange(k)] = c["ids"][0]
        o = [x for x in c["ids"] for _ in range(m)]
        mode = rng.choice(["random", "sequential", "reverse", "burst"])
        if mode == "random":
            rng.shuffle(o)
        elif mode == "reverse":
            o.reverse()
        elif mode == "burst":
            b = [o[j:j + 3] for j in range(0, len(o), 3)]
            rng.shuffle(b)
            o = [x for y in b for x in y]
        c["order"] = o
        cases.append(c)
    for i in range(chk.pick(6, 60)):      # large batches, free running, several periods
        c = base(rng, "large-%d" % i, chk.pick(40, 200))
        c.update(ids=rng.sample(range(1, 5000), rng.choice([0, 1, 20, 64, 150])), nap=rng.choice([0, 3, 11]))
        if rng.random() < 0.5:
            c["eval"]["n"] = 1
        cases.append(c)
    for i in range(chk.pick(8, 60)):      # one of them takes much longer than the others
        c = base(rng, "slow-%d" % i, 4)
        c["ids"] = rng.sample(range(1, 50), rng.randint(2, 6))
        c["slow"] = c["ids"][rng.choice([0, 0, 1])]
        cases.append(c)
    for c in cases:
        c["alias"] = rng.choice([1, 1, 2, 3, 100])
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        for _ in range(20):
            r = merge(c, vlib.drive(exe, [c], text, shards=1)[0])
            if r["crash"] or r["alone"] != [x["d"] for x in r["got"]]:
                return r
        return row   # depends on the schedule: judge the recorded execution itself
    obs = vlib.drive(exe, cases, text)
    rows = [merge(c, o) for c, o in zip(cases, obs)]
    chk.cov["schedule_steps_honoured"] = sum(o.get("honoured", 0) for o in obs)
    chk.cov["results_compared"] = sum(len(r["alone"]) for r in rows)
    for r in rows[:3]:
        chk.sample(r)
    chk.validate("BatchTrace", rows, redo=rerun)
