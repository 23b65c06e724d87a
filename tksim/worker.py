"""A worker: boots the real code once, then runs every simulated run in a
forked child, so each run starts from the same pristine process state and a
crash or a hang of one run is an observation, not an accident.

Reads JSON requests on stdin (one per line), writes JSON results on stdout.
"""
import ctypes
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import traceback

from . import boot, core

libc = ctypes.CDLL(None)
CHILD = []          # the run going on


def sched_for(prop_mod, rng):
    """Draw the scheduling policy of one run (swarm style)."""
    f = getattr(prop_mod, "draw_sched", None)
    if f is not None:
        return f(rng)
    return default_sched(rng)


def default_sched(rng, est=3000, fine_p=0.3, deep_p=0.12):
    r = rng.random()
    fine = rng.random() < fine_p
    if r < 0.62:
        s = {"policy": "rand", "p": 10 ** rng.uniform(-3.3, -0.5)}
    elif r < 0.95:
        n = est * (4 if fine else 1)
        k = rng.randint(1, 6)
        s = {"policy": "pct", "change_points": sorted(rng.randrange(1, n) for _ in range(k))}
    else:
        s = {"policy": "serial"}
    s["fine"] = fine
    s["deep"] = rng.random() < deep_p
    return s


def plan_for(mod, seed, tier):
    """What a seed decides before the run starts."""
    rng = random.Random("plan:%s:%s" % (mod.ID, seed))
    # plans are JSON: what a replay file can hold is what runs
    plan = json.loads(json.dumps(mod.generate(rng, tier)))
    return plan, sched_for(mod, rng)


class Env(object):
    """What a property's ``execute`` gets."""

    def __init__(self, sim, root, plan, buffer):
        self.sim = sim
        self.root = root
        self.plan = plan
        self.buffer = buffer
        self.nontrivial = False
        self.measure = None         # optional extra state for distinctness
        self.extra = {}


def run_child(mod, seed, plan, sched, root, wfd, buffer, tier, sample=False):
    def finish(v):
        res = {"seed": seed, "viol": None}
        if isinstance(v, core.Violation):
            res["viol"] = {"cls": v.cls, "msg": v.msg[:6000]}
        elif v is not None:
            res["harness"] = str(v)[:6000]
        sim = env.sim
        res["steps"] = sim.steps
        res["nswitch"] = sim.nswitch
        res["inter"] = sim.inter.hexdigest()
        res["trace"] = sim.trace.hexdigest()
        res["faults"] = sim.faults
        res["probes"] = sim.probes
        res["simtime"] = sim.now - 1000.0
        res["nontrivial"] = bool(env.nontrivial)
        res["measure"] = env.measure
        res["fsops"] = boot.fs.by_op
        res["extra"] = env.extra
        if sample and v is None:
            res["sample"] = json.dumps(env.plan)[:1500]
        if v is not None or want_full:
            res["plan"] = env.plan
            res["sched"] = {k: w for k, w in sim.sched.items() if k != "switches"}
            res["switches"] = sim.switches if sim.replay is None else [
                [k, list(w)] for k, w in sim.replay.items()]
            res["events"] = sim.events[-120:]
        data = json.dumps(res, default=repr).encode()
        off = 0
        try:
            while off < len(data):
                off += os.write(wfd, data[off:off + 65536])
        except OSError:
            pass            # the worker is gone, and nobody reads this
        os._exit(0)

    want_full = False
    env = None
    try:
        if plan is None:
            plan, s = plan_for(mod, seed, tier)
            sched = s if sched is None else sched
        elif sched is None:
            sched = sched_for(mod, random.Random("plan:%s:%s" % (mod.ID, seed)))
        want_full = bool(sched.pop("_full", False))
        sim = core.Sim("%s:%s" % (mod.ID, seed), sched, on_finish=finish)
        env = Env(sim, root, plan, buffer)
        sim.on_interrupt = boot.set_everywhere
        boot.fs.root = root
        if sched.get("deep"):
            boot.set_deep()
        if sim.fine:
            boot.set_fine(*getattr(mod, "FINE", ()))
        import gc

        gc.disable()
        mod.execute(env)
        finish(None)
    except core.Violation as e:
        finish(e)
    except BaseException as e:
        msg = "".join(traceback.format_exception(e))[-5000:]
        if env is None:
            os.write(wfd, json.dumps({"seed": seed, "viol": None, "harness": msg}).encode())
            os._exit(0)
        finish(core.HarnessError(msg))


def one(mod, req, base, buffer, tier):
    seed = req["seed"]
    root = os.path.join(base, "r")
    os.mkdir(root)
    rfd, wfd = os.pipe()
    timeout = req.get("timeout", 120)
    pid = os.fork()
    if pid == 0:
        try:
            libc.prctl(1, signal.SIGKILL)       # never outlives the worker
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            os.close(rfd)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get("TKSIM_DEBUG"):
                os.dup2(dn, 2)
            run_child(mod, seed, req.get("plan"), req.get("sched"), root, wfd, buffer, tier,
                      bool(req.get("sample")))
        finally:
            os._exit(97)
    CHILD[:] = [pid]
    os.close(wfd)
    chunks = []
    hung = False
    while True:
        r, _, _ = select.select([rfd], [], [], timeout)
        if not r:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(rfd, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(rfd)
    CHILD[:] = []
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    data = b"".join(chunks)
    if hung:
        return {"seed": seed, "viol": None, "hang": True, "plan": req.get("plan")}
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        return {"seed": seed, "crash": sig,
                "viol": {"cls": "crash", "msg": "the interpreter was killed by signal %d" % sig}}
    try:
        return json.loads(data)
    except ValueError:
        return {"seed": seed, "viol": None, "harness": "child ended with status %r and no result" % st}


def main():
    prop, buffer, tier = sys.argv[1:4]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    tmp = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    base = tempfile.mkdtemp(prefix="tksim-", dir=os.environ.get("TKSIM_TMP", tmp))

    def ended(*a):
        for pid in CHILD:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        shutil.rmtree(base, ignore_errors=True)
        os._exit(0)

    signal.signal(signal.SIGTERM, ended)
    try:
        boot.boot(buffer)
        mod = importlib.import_module("tksim.props." + prop.lower())
        if hasattr(mod, "setup"):
            mod.setup()
        import gc

        gc.collect()
        gc.freeze()
        out.write(json.dumps({"ready": True}) + "\n")
        for line in sys.stdin:
            req = json.loads(line)
            if "seeds" in req:
                for s in range(*req["seeds"]):
                    r = one(mod, {"seed": s, "timeout": req.get("timeout", 120),
                                  "sample": s < req["seeds"][0] + 3}, base, buffer, tier)
                    out.write(json.dumps(r) + "\n")
                out.write(json.dumps({"chunk": req["seeds"]}) + "\n")
            else:
                out.write(json.dumps(one(mod, req, base, buffer, tier)) + "\n")
    except (BrokenPipeError, KeyboardInterrupt):
        pass
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
