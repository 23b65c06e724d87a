"""Runs one property's check: seeded search over simulated runs, minimisation,
confirmation of the replay file in a fresh process, evidence."""
import copy
import importlib
import json
import os
import select
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tksim.worker import plan_for  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("TKSIM_PROCS", "0")) or max(2, min(8, os.cpu_count() or 8))
CRASH_SIGNALS = (4, 6, 7, 8, 11)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_for(hashseed, extra=None):
    e = dict(os.environ)
    e.pop("PYTHONMALLOC", None)
    e.update(extra or {})
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = VERIF
    e["LC_ALL"] = "C.UTF-8"
    e.pop("PYTHONSTARTUP", None)
    return e


class Worker(object):
    def __init__(self, prop, hashseed, buffer, tier):
        self.prop, self.hashseed, self.buffer, self.tier = prop, hashseed, buffer, tier
        mod = importlib.import_module("tksim.props." + prop.lower())
        self.p = subprocess.Popen(
            [PY, "-X", "utf8", "-W", "ignore", "-m", "tksim.worker", prop, buffer, tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=VERIF,
            env=env_for(hashseed, getattr(mod, "ENV", None)), text=True, bufsize=1)
        first = self.p.stdout.readline()
        if not first:
            raise RuntimeError("worker did not start")
        json.loads(first)

    def send(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    def ask(self, req):
        self.send(req)
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.terminate()
            try:
                self.p.wait(5)
            except Exception:
                self.p.kill()

    def stop(self):
        self.p.terminate()
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def vclass(res):
    if res.get("crash") in CRASH_SIGNALS:
        return "crash"
    if res.get("viol"):
        return res["viol"]["cls"]
    return None


def group_params(mod, seed0, g):
    bufs = getattr(mod, "BUFFERS", ("c", "c", "py", "c"))
    return 1 + (seed0 * 7 + g) % 4000, bufs[g % len(bufs)]


def search(mod, prop, tier, seed0, nruns, ngroups, wall, t0):
    """Run ``nruns`` seeds in ``ngroups`` groups.  Each group has its own
    PYTHONHASHSEED and buffer implementation and is run by one process, so the
    outcome does not depend on how many processes run at a time."""
    results = []
    errors = []
    violation = [None]
    base = seed0 * 1_000_000
    per = (nruns + ngroups - 1) // ngroups
    todo = list(range(ngroups))
    lock = threading.Lock()
    stop = threading.Event()
    live = []

    def loop():
        while not stop.is_set():
            with lock:
                if not todo:
                    return
                g = todo.pop(0)
            hs, buf = group_params(mod, seed0, g)
            w = None
            try:
                w = Worker(prop, hs, buf, tier)
                with lock:
                    live.append(w)
                w.send({"seeds": [base + g * per, base + (g + 1) * per]})
                while True:
                    r = w.recv()
                    if "chunk" in r:
                        break
                    r["hashseed"], r["buffer"] = hs, buf
                    with lock:
                        results.append(r)
                        if (r.get("harness") or r.get("crash") and vclass(r) != "crash"):
                            errors.append(r)
                        if vclass(r) or r.get("hang"):
                            if violation[0] is None:
                                violation[0] = r
                            stop.set()
                            break
                    if stop.is_set():
                        break
            except Exception as e:
                with lock:
                    errors.append({"harness": "worker group %d: %r" % (g, e)})
            finally:
                if w is not None:
                    if stop.is_set():
                        w.stop()
                    else:
                        w.close()

    ths = [threading.Thread(target=loop, daemon=True) for _ in range(min(NPROC, ngroups))]
    for t in ths:
        t.start()
    capped = False
    for t in ths:
        t.join(max(0.1, wall - (time.time() - t0)))
        if t.is_alive():
            capped = True
            stop.set()          # every worker finishes the run it is in
    if capped:
        t_end = time.time() + 130
        for t in ths:
            t.join(max(0.1, t_end - time.time()))
        if any(t.is_alive() for t in ths):
            errors.append({"harness": "a worker gave no result for 130 s after the wall cap"})
            with lock:
                for w in live:
                    try:
                        w.p.kill()
                    except Exception:
                        pass
    return results, errors, violation[0], capped


# ---------------------------------------------------------------------------
# minimisation

def minimise(mod, prop, tier, res, budget_s=45):
    """Shrink the plan, then the schedule, keeping the violation class."""
    want = vclass(res)
    w = Worker(prop, res["hashseed"], res["buffer"], tier)
    t_end = time.time() + budget_s
    tried = [0]

    def attempt(plan, sched):
        tried[0] += 1
        r = w.ask({"seed": res["seed"], "plan": plan, "sched": dict(sched, _full=True), "timeout": 60})
        if vclass(r) == want:
            return r
        return None

    try:
        plan, sched = res.get("plan"), res.get("sched")
        if plan is None:
            r = w.ask({"seed": res["seed"], "timeout": 60})
            if vclass(r) != want:
                return None
            if r.get("plan") is None:   # a crash: only the seed is known
                plan, sched = plan_for(mod, res["seed"], tier)
            else:
                plan, sched = r["plan"], r["sched"]
        cur = attempt(plan, sched)
        if cur is None:
            return None
        improved = True
        shr = getattr(mod, "shrinks", None)
        while improved and shr and time.time() < t_end:
            improved = False
            for cand in shr(copy.deepcopy(plan)):
                if time.time() > t_end:
                    break
                r = attempt(cand, sched)
                if r is not None:
                    plan, cur, improved = cand, r, True
                    break
        # a simpler schedule: no preemption at all, else fewer switches
        r = attempt(plan, {"policy": "serial"})
        if r is not None:
            sched, cur = {"policy": "serial"}, r
        if cur.get("switches") is not None:
            sw = cur["switches"]
            fixed = {k: v for k, v in sched.items() if k not in ("switches",)}

            def with_sw(s):
                return attempt(plan, dict(fixed, switches=s))

            r = with_sw(sw)
            if r is not None:
                cur_sw = sw
                n = 2
                while len(cur_sw) and time.time() < t_end:
                    size = max(1, len(cur_sw) // n)
                    hit = False
                    for i in range(0, len(cur_sw), size):
                        if time.time() > t_end:
                            break
                        cand = cur_sw[:i] + cur_sw[i + size:]
                        r2 = with_sw(cand)
                        if r2 is not None:
                            cur_sw, r, hit = cand, r2, True
                            n = max(n - 1, 2)
                            break
                    if not hit:
                        if size == 1:
                            break
                        n = min(n * 2, len(cur_sw))
                sched = dict(fixed, switches=cur_sw)
                cur = r
        cur["plan"], cur["sched"] = plan, sched
        cur["hashseed"], cur["buffer"] = res["hashseed"], res["buffer"]
        cur["minimise_runs"] = tried[0]
        return cur
    except Exception as e:
        log("minimisation stopped: %r" % e)
        return None
    finally:
        w.close()


def replay_file(path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    w = Worker(d["property"], d["hashseed"], d["buffer"], d.get("tier", "quick"))
    try:
        req = {"seed": d["seed"], "timeout": d.get("timeout", 120)}
        if d.get("plan") is not None:
            req["plan"] = d["plan"]
            req["sched"] = d["sched"]
        r = w.ask(req)
    finally:
        w.close()
    cls = vclass(r)
    if cls is None and r.get("hang") and d["class"] == "hang":
        cls = "hang"
    return d, r, cls


def write_replay(prop, tier, res, cls, repo_note=""):
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (prop, res["seed"]))
    d = {
        "property": prop, "class": cls, "seed": res["seed"], "tier": tier,
        "hashseed": res["hashseed"], "buffer": res["buffer"],
        "plan": res.get("plan"), "sched": res.get("sched"),
        "message": (res.get("viol") or {}).get("msg"),
        "events": res.get("events"), "trace": res.get("trace"),
    }
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


# ---------------------------------------------------------------------------

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]
    except FileNotFoundError:
        return []


def run_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed0 = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed0 = 1
    seed0 = abs(seed0) % 1_000_000
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("tksim.props." + prop.lower())
    if hasattr(mod, "run_check"):
        return mod.run_check(tier, seed0)
    t0 = time.time()
    scale = float(os.environ.get("TKSIM_SCALE", "1"))
    nruns = max(8, int(mod.RUNS[tier] * scale))
    ngroups = 8 if tier == "quick" else 64
    wall = float(os.environ.get("TKSIM_WALL", "0")) or (300 if tier == "quick" else 660)
    from . import boot
    try:
        if getattr(mod, "NEEDS_EXT", True):
            boot.build_ext()        # once, before the workers race for it
        if hasattr(mod, "prepare"):
            mod.prepare()
    except Exception as e:
        log("HARNESS-ERROR", e)
        return 2
    results, errors, viol, capped = search(mod, prop, tier, seed0, nruns, ngroups, wall, t0)
    rc = 0
    lines = []
    nviol = 0
    if viol is not None:
        cls = vclass(viol) or "hang"
        log("%s: seed %s: %.600s" % (prop, viol["seed"], (viol.get("viol") or {}).get("msg", cls)))
        final = None
        if cls != "hang":
            final = minimise(mod, prop, tier, viol, 30 if tier == "quick" else 120)
        cand = [c for c in (final, viol) if c is not None]
        ok = None
        for c in cand:
            c.setdefault("hashseed", viol["hashseed"])
            c.setdefault("buffer", viol["buffer"])
            path = write_replay(prop, tier, c, cls)
            try:
                _, r, cls2 = replay_file(path)
            except Exception as e:
                log("replay failed: %r" % e)
                continue
            if cls2 == cls:
                ok = path
                break
        if ok is None and cls != "hang":
            # last resort: the seed alone
            c = {"seed": viol["seed"], "hashseed": viol["hashseed"], "buffer": viol["buffer"],
                 "viol": viol.get("viol")}
            path = write_replay(prop, tier, c, cls)
            _, r, cls2 = replay_file(path)
            if cls2 == cls:
                ok = path
        if ok is None:
            log("HARNESS-ERROR: violation of seed %s did not replay" % viol["seed"])
            rc = 2
        else:
            nviol = 1
            rc = 1
            lines.append("VIOLATION property=%s replay=%s" % (prop, ok))
            with open(ok) as f:
                log(json.dumps(json.load(f).get("message"))[:700])
    if errors and rc == 0:
        for e in errors[:3]:
            log("HARNESS-ERROR", e.get("seed"), e.get("harness") or e)
        rc = 2
    if rc == 0 and capped and len(results) < nruns * 0.2:
        log("HARNESS-ERROR: only %d of %d runs finished in %.0f s" % (len(results), nruns, wall))
        rc = 2
    wall_s = time.time() - t0
    write_evidence(mod, prop, tier, seed0, results, wall_s, nviol, capped, nruns)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    for ln in lines:
        print(ln, flush=True)
    if rc == 0:
        print("OK property=%s runs=%d wall=%.1fs" % (prop, len(results), wall_s), flush=True)
    return rc


def write_evidence(mod, prop, tier, seed0, results, wall_s, nviol, capped, nruns):
    faults, probes, fsops = {}, {}, {}
    for r in results:
        for k, v in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get("probes") or {}).items():
            probes[k] = probes.get(k, 0) + v
        for k, v in (r.get("fsops") or {}).items():
            fsops[k] = fsops.get(k, 0) + v
    distinct = {(r.get("measure"), r.get("inter")) for r in results if r.get("nontrivial")}
    samples = []
    for r in sorted((r for r in results if r.get("nontrivial") and r.get("sample")),
                    key=lambda r: r["seed"])[:3]:
        samples.append({"seed": r["seed"], "hashseed": r["hashseed"], "buffer": r["buffer"],
                        "plan": r.get("sample"), "scheduling_points": r.get("steps"), "switches": r.get("nswitch"),
                        "interleaving": r.get("inter"), "trace_digest": r.get("trace"),
                        "faults": r.get("faults"), "shape": r.get("measure")})
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples,
        "planned_runs": nruns,
        "stopped_by_wall_cap": bool(capped),
        "seeds": [seed0 * 1_000_000, seed0 * 1_000_000 + nruns],
        "seeds_per_hour": round(len(results) / max(wall_s, 1e-3) * 3600),
        "simulated_seconds": round(sum(r.get("simtime") or 0 for r in results), 3),
        "scheduling_points": sum(r.get("steps") or 0 for r in results),
        "context_switches": sum(r.get("nswitch") or 0 for r in results),
        "distinct_interleavings": len({r.get("inter") for r in results if r.get("nswitch", 0) > 1}),
        "distinct_interleavings_measure": "hash of the sequence of (task, next task, file, line) at every non-forced switch",
        "faults_injected": faults,
        "rare_conditions_reached": probes,
        "disk_operations": fsops,
        "real_components": mod.REAL,
        "stubbed_components": mod.STUBS,
        "runs_by_buffer": {b: sum(1 for r in results if r.get("buffer") == b)
                           for b in sorted({r.get("buffer") for r in results})},
    }
    ev = {"property": prop, "tier": tier, "seed": seed0, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall_s, 2), "violations": nviol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        d, r, cls = replay_file(a[1])
        log(json.dumps(r.get("viol") or r.get("harness"), indent=1))
        if os.environ.get("TKSIM_EVENTS"):
            for e in r.get("events") or []:
                log(e)
        if cls == d["class"]:
            print("VIOLATION property=%s replay=%s" % (d["property"], a[1]))
            return 1
        print("not reproduced: wanted %s, got %s" % (d["class"], cls))
        return 0
    if a and a[0] == "setup":
        from . import boot
        print(boot.build_ext())
        from .props import c18
        print(c18.build_shim())
        return 0
    if a and a[0] == "seed":
        sys.path.insert(0, VERIF)
        mod = importlib.import_module("tksim.props." + a[1].lower())
        seed = int(a[2])
        g = 0
        hs, buf = (int(a[3]), a[4]) if len(a) > 4 else group_params(mod, 1, g)
        w = Worker(a[1], hs, buf, os.environ.get("VERIF_TIER", "quick"))
        r = w.ask({"seed": seed})
        w.close()
        print(json.dumps(r, indent=1))
        return 0
    return run_check(a[0])


if __name__ == "__main__":
    sys.exit(main())
