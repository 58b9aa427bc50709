#!/usr/bin/env python3
"""selftest.py PROPERTY [samples]: how sharply do the trace specifications bind the recorded executions?

Collects the rows that the property's quick check validates, corrupts one recorded value at a time (one leaf of one row) and
counts how many of the corrupted rows the trace specification still accepts, per place in the row.  A place that is never
rejected is either an input that the property does not depend on, or an observation nobody looks at.  Not a check."""
import concurrent.futures as cf
import copy, importlib, json, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from families import FAMILY

ROWS = []


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif x is not None:
        yield path, x


def corrupt(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 1 + abs(v) // 100])
    if isinstance(v, float):
        return v + 1
    return v + "x" if rng.random() < .5 or not v else v[:-1]


def pattern(path):
    return ".".join("*" if isinstance(k, int) else str(k) for k in path)


def main():
    prop, samples = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    chk = vlib.Check(prop, "quick", 1)
    vlib.Check.finish = lambda self: 0
    vlib.Check.validate = lambda self, module, rows, redo=None, chunk=0, timeout=0, cfg=None, prop=None: (
        ROWS.extend((module, cfg, prop or self.prop, r) for r in rows) or True)
    importlib.import_module("fam_" + FAMILY[prop]).run(chk)
    places = {}
    for m, c, p, row in rng.sample(ROWS, min(len(ROWS), 400)):
        if len(json.dumps(row)) > 60000:
            continue
        seen = set()
        ls = list(leaves(row))
        rng.shuffle(ls)
        for path, v in ls:
            pat = (m, pattern(path), type(v).__name__)
            if pat not in seen and path != ("id",):
                seen.add(pat)
                places.setdefault(pat, []).append((m, c, p, row, path))
    jobs = []
    for pat, l in places.items():
        for j in rng.sample(l, min(samples, len(l))):
            jobs.append((pat, j))

    if len(jobs) > 400:
        jobs = sorted(rng.sample(jobs, 400), key=lambda j: j[0])
    print("%d rows, %d places, %d corruptions" % (len(ROWS), len(places), len(jobs)), flush=True)

    def one(job):
        pat, (m, c, p, row, path) = job
        row = copy.deepcopy(row)
        x = row
        for k in path[:-1]:
            x = x[k]
        x[path[-1]] = corrupt(rng, x[path[-1]])
        fn = os.path.join(vlib.scratch(), "self-%d.ndjson" % rng.getrandbits(60))
        vlib.write_ndjson(fn, [row])
        r = vlib.tlc(m, c, {"TRACE_FILE": fn, "PROP": p}, workers=1, timeout=120, heap="1g")
        os.unlink(fn)
        return pat, "accepted" if r.ok else "rejected" if r.violated else "error"
    res = {}
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        for pat, o in ex.map(one, jobs):
            res.setdefault(pat, {}).setdefault(o, 0)
            res[pat][o] += 1
    for pat in sorted(res):
        r = res[pat]
        print("%-16s %-34s %-6s rejected %d accepted %d error %d%s" % (pat + (r.get("rejected", 0), r.get("accepted", 0), r.get("error", 0), "" if r.get("rejected") or r.get("error") else "   <-- never")))
    vlib.cleanup()


main()
