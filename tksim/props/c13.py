"""C13: templates and loaders keep nothing of finished renders or old versions."""
import gc
import sys
import weakref

from .. import core, loadlib as ll, renderlib as rl, tmpl
from ..core import Violation

ID = "C13"
RUNS = {"quick": 1200, "thorough": 100000}
REAL = ["tonnikala.loader", "tonnikala.runtime (C and Python buffer)", "tonnikala.runtime.debug", "compiled templates",
        "template compiler", "CPython's garbage collector"]
STUBS = ["thread scheduling", "locks", "clocks", "disk errors", "asynchronous exceptions"]
RULE = ("(a) tasks of renders that end normally, fail, are interrupted, nest and are interleaved: when a render has "
        "ended and its result is dropped, weak references to everything only its context held are dead after a "
        "garbage collection, and repeating a render leaves no memory allocated; (b) tasks load, edit and fail in any "
        "interleaving, then rounds of edits, reloads, failures and renders are repeated: the number of template "
        "objects alive equals the number of names loaded, and what the loader and the package's modules refer to "
        "does not grow from round to round; non-trivial: a failure, interruption or overlap (a), a reload (b)")


def generate(rng, tier):
    if rng.random() < 0.6:
        return generate_renders(rng, tier)
    return generate_loads(rng, tier)


def generate_renders(rng, tier):
    g = tmpl.Gen(rng, feat={"lit": True, "tal": rng.random() < 0.1, "plus": False, "gj": False}, maxdepth=rng.choice([3, 3, 4]))
    env = g.context_vars()
    files = g.fileset(env)
    plan = {"mode": "renders", "files": files, "preload": True, "tasks": []}
    nt = rng.choice([1, 2, 2, 3])
    i = 0
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(1, 3)):
            i += 1
            op = rl.draw_op(rng, files, env, "r%d_" % i, nest_p=0.3, fail_p=0.4, objs=0.3)
            if not op.get("nest") and rng.random() < 0.3:
                op["interrupt"] = core.draw_interrupt(rng, 2.8, 60)
                op["string"] = False
            ops.append(op)
        plan["tasks"].append(ops)
    return plan


def generate_loads(rng, tier):
    plan = ll.base_plan(rng, reload=True, mode="loads")
    names = plan["names"]
    for t in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.25:
                ops.append(dict(ll.draw_change(rng, bad=0.3), op="edit", name=rng.choice(names)))
            elif r < 0.35:
                ops.append({"op": "fault", "name": rng.choice(names), "ops": [rng.choice(["stat", "open", "read"])],
                            "errno": 5, "times": rng.choice([1, 3])})
            elif r < 0.55:
                ops.append({"op": "sleep", "dt": ll.draw_dt(rng)})
            else:
                ops.append(ll.draw_load(rng, names))
        plan["tasks"].append(ops)
    # what one round does, besides an edit of every file
    r = []
    for _ in range(rng.randint(1, 4)):
        n = rng.choice(names)
        r.append(rng.choice([["missing"], ["string"], ["badstring"], ["broken", n], ["io", n, rng.choice(["open", "read", "stat"])],
                             ["interrupt", n, core.draw_interrupt(rng, 3, 60)], ["fail", n], ["gone", n]]))
    plan["round"] = r
    plan["aba"] = False
    return plan


def shrinks(plan):
    if plan["mode"] == "renders":
        yield from rl.shrink_plan(plan)
        yield from rl.shrink_ops(plan)
        return
    yield from ll.shrinks(plan)
    for c in rl.drop_each(plan["round"]):
        yield dict(plan, round=c)


# ------------------------------------------------------------------ renders

class Sentinel(object):
    pass


class Tracked(rl.World):
    def __init__(self, env):
        rl.World.__init__(self, env)
        self.refs = {}          # task -> [(what, weak reference)]

    def me(self):
        return self.sim.cur.tid if self.sim.in_task() else -1

    def real_ctx(self, op, p):
        ctx = rl.World.real_ctx(self, op, p)
        s = ctx["sentinel"] = Sentinel()
        refs = self.refs.setdefault(self.me(), [])
        refs.append(("a context value no expression uses", weakref.ref(s)))
        refs.append(("the function t of the context", weakref.ref(p)))
        for k, v in ctx.items():
            if isinstance(v, rl.Obj):
                refs.append(("the context value %s" % k, weakref.ref(v)))
        return ctx

    def make_exc(self, a):
        e = rl.World.make_exc(self, a)
        try:
            self.refs.setdefault(self.me(), []).append(("the exception raised", weakref.ref(e)))
        except TypeError:
            pass
        return e

    def check_dead(self, where):
        with core.NoPreempt():
            gc.collect()
        refs = self.refs.pop(self.me(), [])
        for what, r in refs:
            if r() is not None:
                raise Violation("kept", "%s has ended and its result was dropped, but %s is alive; referred to by %s" % (
                    where, what, referrers(r())))

    def run_tasks(self, preload=True):
        plan, sim = self.env.plan, self.sim
        for n in sorted(self.files):
            self.loader.load(n)
        self.env.measure = "t%d" % len(plan["tasks"])
        for i, ops in enumerate(plan["tasks"]):
            def body(i=i, ops=ops):
                late = {}
                for j, op in enumerate(ops):
                    where = "task%d.%d" % (i, j)
                    # (a boolean, so that no exception is kept here)
                    failed = self.perform(op, where) is not None
                    if failed:
                        self.env.nontrivial = True
                    if not self.late:
                        self.check_dead(where)
                self.flush_mine(i)
                if not self.late:
                    self.check_dead("task%d" % i)
            sim.spawn("task%d" % i, body)
        sim.run()
        self.flush_late()
        for tid in list(self.refs):
            self.refs.setdefault(-1, []).extend(self.refs.pop(tid) if tid != -1 else [])
        self.check_dead("everything")
        for i, ops in enumerate(plan["tasks"]):
            for j, op in enumerate(ops):
                if not nested(op):
                    self.repeat(op, "task%d.%d" % (i, j))

    def flush_mine(self, i):
        mine = [x for x in self.late if x[0].startswith("task%d." % i)]
        self.late = [x for x in self.late if not x[0].startswith("task%d." % i)]
        for what, f, want in mine:
            rl.check_same(f(), want, what + " (used later)")

    def repeat(self, op, where):
        """The same render again and again leaves nothing allocated."""
        t = self.template(op)
        nest = op.get("nest") or {}
        blocks = sys.getallocatedblocks
        grown = []

        def batch():
            for _ in range(10):
                once(self, t, op, nest)
            gc.collect()

        batch()
        for _ in range(5):
            n0 = blocks()
            batch()
            d = blocks() - n0
            grown.append(d)
            if d < 10:
                return
        raise Violation("leak", "%s: repeating the render of %s 10 times leaves %s blocks allocated" % (
            where, op["tmpl"], grown))


def once(world, t, op, nest):
    p = rl.Probe(nest)
    p.on_action = lambda a, k, n, v: simple_action(world, a, k, n, v)
    ctx = {k: tmpl.real_value(v, lambda s: rl.make_obj(s, p)) for k, v in op["ctx"].items()}
    ctx["t"] = p
    try:
        t.render(ctx, op["func"])
    except BaseException:
        pass


def simple_action(world, a, k, n, v):
    def boom():
        raise rl.EXC[a["exc"]](a["msg"])

    if a["mode"] == "call":
        boom()
    if a["mode"] == "iter":
        return rl.World.real_iter(v, a["after"], boom)
    if a["mode"] == "items":
        return rl.bad_items(a, v, boom)
    return (rl.BadObj if a["mode"] == "conv" else rl.BadHtml)(boom, k)


def nested(op):
    return any("op" in a for a in (op.get("nest") or {}).values())


def referrers(o, depth=3):
    out = []
    for r in gc.get_referrers(o):
        if type(r).__name__ in ("frame", "list_iterator"):
            continue
        out.append(("%s %s" % (type(r).__name__, sorted(map(str, r))[:6] if isinstance(r, dict) else ""))[:120])
    return "; ".join(out[:5])


# -------------------------------------------------------------------- loads

class Loads(ll.LoadWorld):
    def __init__(self, env):
        ll.LoadWorld.__init__(self, env)
        from tonnikala.loader import Template

        self.Template = Template
        self.keys = set()
        self.left = len(env.plan["tasks"])
        self.nround = 0

    def load_op(self, op, where):
        self.load_render(op["name"], op.get("abs"))
        self.keys.add((op["name"], bool(op.get("abs"))))

    def run(self):
        plan, sim = self.env.plan, self.sim
        for i, ops in enumerate(plan["tasks"]):
            def body(i=i, ops=ops):
                for j, op in enumerate(ops):
                    self.do(op, "task%d.%d" % (i, j))
                self.left -= 1
                if not self.left:
                    self.rounds()
            sim.spawn("task%d" % i, body)
        self.env.measure = "%s" % len(plan["round"])
        sim.run()

    def rounds(self):
        self.disk.clear_faults()
        del self.disk.triggers[:]
        sizes = []
        for n in self.names:
            self.renew(n)
        self.sim.sleep(0.6)
        for r in range(60):
            self.one_round()
            n = size(self.loader)
            sizes.append(n)
            self.sim.log("round", n)
            if r >= 5 and not all(sizes[-i] > sizes[-i - 1] for i in range(1, 4)):
                break
        else:
            raise Violation("grows", "what the loader refers to grows from round to round (%s): %s" % (
                self.env.plan["round"], sizes))
        self.env.nontrivial = True

    def renew(self, name):
        d, r = self.disk, self.nround
        p = d.path(name)
        self.nround += 1
        f = ll.make_file(name, 100000 + self.nround % 2, 0)
        with core.NoPreempt():
            import os
            from .. import boot
            q = os.path.join(self.env.root, "renew")
            with boot.real.open(q, "wb") as fo:
                fo.write(tmpl.source(f).encode())
            os.utime(q, (1_700_000_000 + self.nround, 1_700_000_000 + self.nround))
            os.replace(q, p)

    def spoil(self, name, gone):
        import os
        from .. import boot
        p = self.disk.path(name)
        with core.NoPreempt():
            if gone:
                os.unlink(p)
                return
            self.nround += 1
            with boot.real.open(p + ".q", "wb") as fo:
                fo.write(b"<html><p>")
            os.utime(p + ".q", (1_700_000_000 + self.nround, 1_700_000_000 + self.nround))
            os.replace(p + ".q", p)

    def attempt(self, name, inject=None):
        me = self.sim.cur
        if inject:
            self.sim.interrupt(inject, lambda: KeyboardInterrupt("simulated"))
        try:
            self.loader.load(name).render(self.context())
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except BaseException:
            self.sim.probe("failed")
        self.sim.no_interrupt()

    def one_round(self):
        sim, d = self.sim, self.disk
        for x in self.env.plan["round"]:
            k = x[0]
            if k == "missing":
                for _ in range(3):
                    self.nround += 1
                    self.attempt("no/such/file%d.tk" % self.nround)
            elif k in ("string", "badstring"):
                self.nround += 1
                try:
                    self.loader.load_string("<html>%d %s</html>" % (
                        self.nround, "$s0" if k == "string" else "${+}")).render(self.context())
                except Exception:
                    sim.probe("failed")
            elif k == "io":
                d.add_fault(x[1], [x[2]], 5, 1)
                sim.sleep(0.6)
                self.attempt(x[1])
                d.clear_faults()
            elif k == "broken":
                self.spoil(x[1], False)
                sim.sleep(0.6)
                self.attempt(x[1])
                self.renew(x[1])
            elif k == "gone":
                self.spoil(x[1], True)
                sim.sleep(0.6)
                self.attempt(x[1])
                self.renew(x[1])
            elif k == "interrupt":
                self.renew(x[1])
                sim.sleep(0.6)
                self.attempt(x[1], x[2])
            elif k == "fail":
                try:
                    self.loader.load(x[1]).render({"b0": True})     # (no s0)
                except Exception:
                    sim.probe("failed")
        for n in self.names:
            self.renew(n)
        sim.sleep(0.6)
        old = [(n, a, weakref.ref(self.loader.load(d.path(n) if a else n))) for n, a in self.all_keys()]
        for n in self.names:
            self.renew(n)
        sim.sleep(0.6)
        for n, a, r in old:
            t = self.loader.load(d.path(n) if a else n)
            t.render(self.context())
            if t is r():
                raise Violation("stale", "%s was edited, but the old template is loaded" % n)
        t = None
        with core.NoPreempt():
            gc.collect()
        for n, a, r in old:
            if r() is not None:
                raise Violation("kept", "%s was edited and loaded again, but its superseded template is alive; "
                                "referred to by %s" % (n, referrers(r())))
        live = [o for o in gc.get_objects() if type(o) is self.Template]
        want = len(old)
        if len(live) > want:
            raise Violation("kept", "%d template objects are alive, but only %d names are loaded: %s" % (
                len(live), want, sorted([getattr(o, "path", "?").rpartition("/")[2] for o in live])))

    def all_keys(self):
        return sorted(self.keys | {(n, False) for n in self.names})


def size(loader):
    """The number of objects the loader and the package's modules refer to."""
    import linecache

    with core.NoPreempt():
        gc.collect()
    stop = {id(sys.modules)}
    mods = []
    for n, m in list(sys.modules.items()):
        if n == "tonnikala" or n.startswith("tonnikala."):
            mods.append(m.__dict__)
        elif getattr(m, "__dict__", None) is not None:
            stop.add(id(m.__dict__))
    seen = {}
    todo = [loader, linecache.cache] + mods
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in stop:
            continue
        t = type(o)
        if t.__name__ in ("module", "frame") or t.__module__.startswith("tksim") or isinstance(o, core.Sim):
            continue
        if isinstance(o, type) and not o.__module__.startswith("tonnikala"):
            continue
        if t.__name__ == "function" and (getattr(o, "__module__", None) or "").startswith("tksim"):
            continue
        seen[id(o)] = o
        todo.extend(gc.get_referents(o))
    return len(seen)


def execute(env):
    if env.plan["mode"] == "renders":
        Tracked(env).run_tasks()
    else:
        Loads(env).run()
