"""C09: a load that fails or is interrupted leaves no trace."""
import gc

from .. import boot, core, loadlib as ll, worker
from ..core import Violation

ID = "C09"
RUNS = {"quick": 2800, "thorough": 200000}
REAL = ["tonnikala.loader.FileLoader", "template compiler", "codecs", "files in a scratch directory"]
STUBS = ["clocks", "thread scheduling", "locks", "disk errors", "asynchronous exceptions (KeyboardInterrupt, MemoryError)"]
RULE = ("loads that fail because a file of the page is missing, broken, not UTF-8, unreadable at any file operation, or "
        "that are interrupted by an exception delivered at a random function entry, file operation or clock reading of "
        "the load; checked: the error raised is the cause, no file stays open, no other page is affected, the next "
        "load with the cause gone succeeds and equals a fresh loader's; non-trivial: a load failed and was retried")
ERR = {"gone": OSError, "utf8": UnicodeDecodeError, "utf8cut": UnicodeDecodeError}


def draw_sched(rng):
    # deep: exceptions can arrive inside the template compiler too
    s = worker.default_sched(rng, est=3000, fine_p=0.1, deep_p=0.7)
    return s


def generate(rng, tier):
    plan = ll.base_plan(rng, reload=rng.random() < 0.5, short=rng.choice([0, 0, 1000]))
    names = plan["names"]
    nt = rng.choice([1, 1, 1, 2, 3])
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if r < 0.75:
                n = rng.choice(names)
                victim = rng.choice(ll.deps(n))
                c = rng.random()
                if c < 0.5 or nt > 1 and c < 0.8:
                    cause = {"kind": "inject", "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]),
                             "after": core.draw_interrupt(rng, 3.2, 160, 0.7)}
                elif c < 0.75 and nt == 1:
                    cause = {"kind": "file", "what": rng.choice(sorted(ll.BAD) + ["gone"]), "victim": victim,
                             "how": rng.choice(["replace", "inplace", "symlink"]), "mtime": ll.draw_mtime(rng),
                             "same": rng.random() < 0.5}
                else:
                    cause = {"kind": "io", "victim": victim, "at": rng.choice(["open", "fstat", "read", "stat"]),
                             "errno": rng.choice([5, 13, 24, 2, 12])}
                ops.append({"op": "try", "name": n, "cause": cause, "other": rng.choice(names),
                            "style": rng.randrange(90), "mtime": ll.draw_mtime(rng)})
            elif r < 0.85:
                ops.append({"op": "sleep", "dt": ll.draw_dt(rng)})
            else:
                ops.append(ll.draw_load(rng, names))
        plan["tasks"].append(ops)
    if nt > 1 and plan["reload"] is False:
        pass
    plan["aba"] = False
    return ll.add_fillers(rng, plan)


shrinks = ll.shrinks


class World(ll.LoadWorld):
    def __init__(self, env):
        ll.LoadWorld.__init__(self, env)
        # (a check for changes that was interrupted may count as made; how soon
        # edits have to be noticed is the business of C05)
        self.window = ll.W * 2 if env.plan["reload"] else 1e9
        self.single = len(env.plan["tasks"]) == 1

    def do(self, op, where):
        if op["op"] == "try":
            self.try_op(op, where)
        else:
            ll.LoadWorld.do(self, op, where)

    def load_op(self, op, where):
        t0, t1, t, text, exc, ctx = self.load_render(op["name"], op.get("abs"))
        self.check_load(op["name"], t0, t1, text, exc, ctx, where, self.window)

    def mine(self):
        tid = self.sim.cur.tid
        return sorted(p for fd, p in boot.fs.open_fds.items() if boot.fs.fd_owner.get(fd) == tid)

    def try_op(self, op, where):
        sim, d, cause, name = self.sim, self.disk, op["cause"], op["name"]
        me = sim.cur
        injected = []
        kind = cause["kind"]
        if kind == "inject":
            def factory():
                e = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[cause["exc"]]("simulated")
                injected.append(e)
                return e
            self.sim.interrupt(cause["after"], factory)
        elif kind == "file":
            d.install(cause["victim"], cause)
        else:
            d.add_fault(cause["victim"], [cause["at"]], cause["errno"], 1 if cause["at"] != "stat" else 99)
        t0 = sim.now
        t = exc = None
        left = []
        try:
            t = self.loader.load(name)
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except BaseException as e:
            exc = e
            left = self.mine()
        self.sim.no_interrupt()
        t1 = sim.now
        sim.log("try", name, kind, type(exc).__name__)
        if kind == "inject":
            if injected and exc is not injected[0]:
                raise Violation("interrupt-lost", "%s: loading %s was interrupted by %r but ended with %r" % (
                    where, name, injected[0], exc if exc is not None else t))
        elif exc is not None:
            if left:
                raise Violation("file-left-open", "%s: loading %s failed with %r and left %s open" % (
                    where, name, exc, left))
        if exc is not None and not injected:
            trouble = [n for n in ll.deps(name) if d.troubled(n, t0 - self.window, t1)]
            if not trouble:
                raise Violation("load-failed", "%s: %s: %s: %s" % (where, name, type(exc).__name__, exc))
            self.check_error(where, name, cause, exc)
        failed = exc is not None
        text = None
        exc = None
        if injected:
            injected[0].__traceback__ = None
            gc.collect()
            left = self.mine()
            if left:
                raise Violation("file-left-open", "%s: loading %s was interrupted and left %s open" % (
                    where, name, left))
        # another page, while the cause is still there
        o = op["other"]
        r = self.load_render(o)
        self.check_load(o, r[0], r[1], r[3], r[4], r[5], where + " (another page)", self.window)
        # the cause goes away
        if kind == "file":
            d.install(cause["victim"], {"what": "new", "how": cause["how"], "style": op["style"], "mtime": op["mtime"],
                                        "same": cause.get("same")})
        elif kind == "io":
            d.faults = [f for f in d.faults if f[0] != cause["victim"]]
        if self.env.plan["reload"] and kind != "inject":
            sim.sleep(0.51)
        if not failed:
            return
        self.env.nontrivial = True
        sim.probe("failed_" + kind)
        if not self.single:
            r = self.load_render(name)
            self.check_load(name, r[0], r[1], r[3], r[4], r[5], where + " (again)", self.window)
            return
        r = self.load_render(name)
        if r[4] is not None:
            raise Violation("not-recovered", "%s: with the cause (%s) gone, %s still fails: %s: %s" % (
                where, kind, name, type(r[4]).__name__, r[4]))
        self.check_load(name, r[0], r[1], r[3], r[4], r[5], where + " (again)", self.window)
        if self.env.plan["reload"]:
            if kind == "inject":
                # (see the window)
                sim.sleep(0.51)
                r = self.load_render(name)
                self.check_load(name, r[0], r[1], r[3], r[4], r[5], where + " (later)", self.window)
            fresh = self.FileLoader(self.disk.dirs)
            f = fresh.load(name).render(dict(r[5]))
            if f != r[3]:
                raise Violation("not-fresh", "%s: %s loaded after a failure renders %r, a fresh loader's %r" % (
                    where, name, r[3][:200], f[:200]))

    def check_error(self, where, name, cause, exc):
        if not self.single:
            if not isinstance(exc, self.errors):
                raise Violation("wrong-error", "%s: %s failed with %r" % (where, name, exc))
            return
        kind = cause["kind"]
        if kind == "file":
            want = ERR.get(cause["what"], (self.errors[1], SyntaxError))
            ok = isinstance(exc, want)
        else:
            ok = isinstance(exc, OSError) and (cause["at"] == "stat" or exc.errno == cause["errno"])
        if not ok:
            raise Violation("wrong-error", "%s: %s failed with %r, the cause was %r" % (where, name, exc, cause))


def execute(env):
    World(env).run()
