"""Stored histories (P24): Storage bound to util/proto.h."""
import itertools, json, os
import concurrent.futures as cf
import vlib
from num import f32, txt

HARNESS = os.path.join(vlib.VERIF, "harness", "storage.cc")


def text(c):
    out = [c["kind"]] + ["m " + m for m in c["msgs"]]
    if c.get("bulk"):
        out.append("bulk %d" % c["bulk"])
    out.append("compress %d" % c["compress"])
    for k in ("allcuts", "extra", "files"):
        out.append("%s %d" % (k, c.get(k, 0)))
    out.append("flipstep %d %d" % tuple(c.get("flips", (0, 0))))
    for k in ("cuts", "stops", "caps"):
        v = c.get(k, [])
        out.append("%s %d %s" % (k, len(v), " ".join(map(str, v))))
    return "\n".join(out)


def merge(c, obs):
    row = {"id": c["id"], "crash": obs.get("crash", ""), "wcode": 0, "len": 0, "plain": 0, "zerr": False, "sizes": [], "uni": [0, 0], "ev": []}
    row.update({k: obs[k] for k in row if k in obs})
    return row


def rand_msg(rng, kind, big=False):
    ts = rng.choice([1483228800, 1483228800 + rng.randint(0, 10 ** 8), 0, 1, 127, 128, -1, 1 << 40])
    num = lambda: txt(f32(rng.choice([0, 1, 700, rng.random() * 1e4, -3.5, rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20)])))
    full = rng.random() < .7
    if kind == "price":
        return "%d %d %s %s" % (7 if full else rng.randint(0, 7), ts, num(), num())
    if kind == "ohlc":
        return "%d %d %s" % (63 if full else rng.randint(0, 63), ts, " ".join(num() for _ in range(5)))
    n = rng.choice([0, 1, 2, 3, 7, 25, 26, 30]) if not big else rng.choice([3000, 3276, 3277, 13107, 30000])
    return "%d %d %d %d" % (int(full), ts, n, rng.randrange(1 << 30))


def sized(kind, size, rng):
    """A message for an abstract size of the model: empty, short, or with a two-byte length."""
    if size == 0:
        return {"price": "0 0 0 0", "ohlc": "0 0 0 0 0 0 0", "side": "0 0 0 0"}[kind]
    if size == 1:
        return {"price": "7 %d 1.5 2", "ohlc": "63 %d 1 2 1 2 9", "side": "1 %d 2 7"}[kind] % rng.randint(1, 1 << 31)
    return {"price": "2 0 %d 0", "ohlc": "6 0 3 %d 0 0 0", "side": "1 5 27 %d"}[kind] % rng.randint(1, 1000)


def stops_for(rng, n):
    s = {1, -1, n, -n, n + 1, -(n + 1)} - {0}
    if n > 2:
        k = rng.randint(2, n)
        s |= {k, -k}
    return sorted(s)


def rand_case(rng, cid, n, big=False):
    kind = rng.choice(["price", "ohlc", "side"]) if not big else "side"
    msgs = [rand_msg(rng, kind, big and rng.random() < .6) for _ in range(n)]
    if rng.random() < .2 and msgs:
        msgs = [rng.choice(msgs[:2]) for _ in range(n)]     # compresses well
        if kind == "side" and not big and rng.random() < .7:
            msgs = ["1 1483228800 %d %d" % (rng.choice([25, 30, 100]), rng.randrange(3)) for _ in range(n)]
    c = {"id": cid, "kind": kind, "msgs": msgs, "compress": rng.randint(0, 1), "stops": stops_for(rng, n), "files": 1}
    return c


def run(chk):
    rng = chk.rng
    wf = os.path.join(vlib.scratch(), "world.json")
    with cf.ThreadPoolExecutor(2) as ex:
        exe_f = ex.submit(chk.builder.link, "storage", [HARNESS], [], ["base"])
        chk.model("StorageMC", "StorageMCdeep.cfg" if chk.thorough else None, env={"WORLD_FILE": wf})
        exe = exe_f.result()
    w = json.load(open(wf))
    cases = []
    # every record sequence of the model's world: each is cut everywhere and written to devices of every capacity
    seqs = [s for n in range(w["maxlen"] + 1) for s in itertools.product(sorted(w["sizes"])[:3], repeat=n)]
    for i, s in enumerate(seqs):
        for kind in ("price", "ohlc", "side") if chk.thorough else (("price", "ohlc", "side")[i % 3],):
            for comp in (0, 1):
                if chk.thorough or rng.random() < .7:
                    cases.append({"id": "world-%d-%s-%d" % (i, kind, comp), "kind": kind, "msgs": [sized(kind, x, rng) for x in s], "compress": comp,
                                  "stops": stops_for(rng, len(s)), "files": 1, "allcuts": 1, "caps": "every", "flips": (1, 0), "extra": int(i % 20 == 0)})
    chk.cov["world_behaviours_replayed"] = len(cases)
    for i in range(chk.pick(80, 400)):
        n = rng.choice([1, 3, 10, 40])
        c = rand_case(rng, "random-%d" % i, n)
        c.update(allcuts=int(n <= 10), cuts=[rng.randint(0, 700) for _ in range(40)] + [-1, -2, -8, -9], flips=(rng.choice([3, 7, 11]) if n <= 10 else 61, rng.randint(0, 2)),
                 caps=[0, 1, 9, 10, -1, -2, -8, 10 ** 6] + [rng.randint(0, 300) for _ in range(5)])
        cases.append(c)
    for i in range(chk.pick(10, 80)):      # larger than the buffers on the way
        big = rng.random() < .6
        c = rand_case(rng, "large-%d" % i, rng.choice([1, 3, 8] if big else [400, 3000]), big)
        c.update(cuts=[rng.randint(0, 400000) for _ in range(20)] + [8191, 8192, 8193, 65535, 65536, 65537, 16384, -1, -4, -8, -9, -100],
                 flips=(rng.choice([30011, 100003]), rng.randint(0, 80)), caps=[0, 8192, 65536, 65537, -1, -9, 10 ** 7] + [rng.randint(0, 200000) for _ in range(4)])
        cases.append(c)
    for i, n in enumerate(chk.pick([1200000], [1100000, 2500000, 300000, 70000])):      # years of one-minute records
        k = ["price", "ohlc"][i % 2]
        cases.append({"id": "bulk-%d" % n, "kind": k, "msgs": [], "bulk": n, "compress": 1, "stops": [n, -n, n - 1], "files": 1,
                      "cuts": [rng.randint(0, 10 ** 7) for _ in range(2)]})
    for i, n in enumerate([70000, 300000, 1200000]):        # a single record of megabytes among small ones
        small = ["1 1483228800 %d 5" % rng.choice([0, 1, 3]) for _ in range(3)]
        cases.append({"id": "giant-%d" % n, "kind": "side", "msgs": small[:1] + ["1 1483228801 %d %d" % (n, rng.randrange(1 << 30))] + small[1:], "compress": i % 2,
                      "stops": [1, 2, 3, 4, -2], "files": 1, "cuts": [rng.randint(10, 4 * n), -1, -20], "caps": [rng.randint(10, 4 * n), 10 ** 8]})
    for c in cases:
        if c.get("caps") == "every":
            c["caps"] = list(range(0, 140, chk.pick(3, 1))) + [-k for k in range(1, 14)] + [10 ** 6]
    byid = {c["id"]: c for c in cases}

    def rerun(row):
        c = byid[row["id"]]
        return merge(c, vlib.drive(exe, [c], text, shards=1)[0])
    rows = [merge(c, o) for c, o in zip(cases, vlib.drive(exe, cases, text))]
    kinds = {}
    for r in rows:
        for e in r["ev"]:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    chk.cov["events"] = kinds
    chk.cov["events_checked"] = sum(kinds.values())
    for r in rows[:2]:
        chk.sample({**r, "ev": r["ev"][:5]})
    chk.assumptions += ["zlib reports damage as its own decompression of the same bytes does",
                        "a file cut between two records cannot be told from a shorter history (the format stores no count)"]
    chk.validate("StorageTrace", rows, redo=rerun)
