"""Shows that a seed decides a run: every seed is run again in other processes.

    python3 tools/determinism.py [N [PROP...]]

For every property N seeds are run (a) in one process in order, (b) in one
process in a shuffled order, after and before other runs, (c) in fresh
processes of one run each (a sample), while all eight processors are busy with
other workers, and (d) under another PYTHONHASHSEED.  The digests of the event
logs (every scheduling decision, file operation, fault and result), the
interleavings and the outcomes have to agree; under (d) they are counted (a set
of strings may be iterated in another order by the code under test; that is
why every run records its hash seed).
"""
import concurrent.futures
import importlib
import json
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ["PYTHONPATH"] = V
from tksim import boot, driver  # noqa: E402


def run(prop, buf, hs, seeds):
    w = driver.Worker(prop, hs, buf, "quick")
    out = {}
    try:
        for s in seeds:
            w.send({"seeds": [s, s + 1]})
            while True:
                r = w.recv()
                if "chunk" in r:
                    break
                out[s] = (r.get("trace"), r.get("inter"), json.dumps(r.get("viol")), r.get("steps"))
    finally:
        w.close()
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    props = sys.argv[2:] or [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    boot.build_ext()
    ex = concurrent.futures.ThreadPoolExecutor(8)
    jobs = {}
    for prop in props:
        mod = importlib.import_module("tksim.props." + prop.lower())
        if not hasattr(mod, "generate"):
            continue
        if hasattr(mod, "prepare"):
            mod.prepare()
        bufs = getattr(mod, "BUFFERS", ("c", "c", "py", "c"))
        for buf in sorted(set(bufs)):
            seeds = [7_000_000 + i for i in range(n)]
            other = seeds[:]
            random.Random(3).shuffle(other)
            js = [ex.submit(run, prop, buf, 11, seeds), ex.submit(run, prop, buf, 11, other)]
            js.append([ex.submit(run, prop, buf, 11, [s]) for s in seeds[::max(1, n // 8)]])
            js.append(ex.submit(run, prop, buf, 12, seeds))
            jobs[prop, buf] = js
    bad = 0
    for (prop, buf), (a, b, c, d) in jobs.items():
        a, b, d = a.result(), b.result(), d.result()
        c1 = {}
        for x in c:
            c1.update(x.result())
        diff = [s for s in a if a[s] != b[s]] + [s for s in c1 if c1[s] != a[s]]
        bad += len(diff)
        print("%s %-3s %d seeds: %d differ when repeated in another order, %d of %d in a fresh process, %d under another "
              "hash seed; %d distinct logs %s" % (prop, buf, len(a), sum(a[s] != b[s] for s in a),
                                              sum(c1[s] != a[s] for s in c1), len(c1), sum(a[s] != d[s] for s in a),
                                              len({x[0] for x in a.values()}), sorted(set(diff))[:5]), flush=True)
    sys.exit(1 if bad else 0)


main()
