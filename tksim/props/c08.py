"""C08: loaded templates stay as they are unless reloading says otherwise."""
from .. import boot, core, loadlib as ll, renderlib as rl
from ..core import Violation

ID = "C08"
RUNS = {"quick": 2800, "thorough": 200000}
REAL = ["tonnikala.loader.FileLoader", "template compiler", "files in a scratch directory"]
STUBS = ["clocks", "thread scheduling", "locks", "disk errors"]
RULE = ("histories of loads, held template objects, edits, deletions and disk errors, with reloading off, on, or on "
        "without any change, in 1-3 tasks; file operations are counted per task; checked: identity of the template "
        "object, its rendered text, and that no file (reload off) or no template content (reload on, unchanged) is read "
        "again; non-trivial: a template was loaded or rendered again after a change, or again without one")


def generate(rng, tier):
    mode = rng.choice(["off", "off", "on", "same"])
    plan = ll.base_plan(rng, reload=mode != "off", mode=mode)
    names = plan["names"]
    nt = rng.choice([1, 1, 2, 3])
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(5, 14)):
            r = rng.random()
            if mode != "same" and (nt == 1 or t == 0) and r < 0.3:
                ops.append(dict(ll.draw_change(rng, bad=0.3), op="edit", name=rng.choice(names)))
            elif mode != "same" and (nt == 1 or t == 0) and r < 0.36:
                ops.append({"op": "fault", "name": rng.choice(names),
                            "ops": rng.choice([["stat"], ["open"], ["read"], ["open", "read", "stat", "fstat"]]),
                            "errno": rng.choice([13, 5, 2]), "times": rng.choice([1, 2, 50])})
            elif mode != "same" and r < 0.4:
                ops.append({"op": "clear"})
            elif r < 0.55:
                ops.append({"op": "sleep", "dt": ll.draw_dt(rng)})
            elif r < 0.62:
                ops.append({"op": "jump", "dt": rng.choice([-1, 1]) * 10 ** rng.uniform(0, 6)})
            elif r < 0.8:
                ops.append({"op": "held", "pick": rng.randrange(100)})
            else:
                ops.append(dict(ll.draw_load(rng, names), hold=rng.random() < 0.6))
        plan["tasks"].append(ops)
    if mode == "off" and nt == 1 and rng.random() < 0.5:
        ops = plan["tasks"][0]
        for _ in range(rng.choice([1, 1, 2])):
            ops.insert(rng.randint(0, len(ops) // 2 + 1), {"op": "blink", "name": rng.choice(names), "dt": ll.draw_dt(rng)})
    ll.add_fillers(rng, plan)
    if mode == "on":
        ll.add_parking(rng, plan)
    return ll.settle_aba(rng, plan)


shrinks = ll.shrinks
READS = ("open", "read", "fstat")


class World(ll.LoadWorld):
    def __init__(self, env):
        ll.LoadWorld.__init__(self, env)
        self.first = {}         # name -> (template, t0, versions) of the first finished load
        self.keep = []          # (name, template, versions of own file and bases)
        self.mode = env.plan["mode"]
        self.libs = {}          # reload off: name -> the version every import shows

    def ops_of(self):
        return dict(self.disk.tasks_ops.get(self.sim.cur.tid, {}))

    def do(self, op, where):
        if op["op"] == "held":
            self.held_op(op, where)
        elif op["op"] == "blink":
            self.blink(op, where)
        else:
            ll.LoadWorld.do(self, op, where)

    def chain(self, name):
        out = [name]
        while ll.SHAPES[out[-1]][0]:
            out.append(ll.SHAPES[out[-1]][0])
        return out

    def load_op(self, op, where):
        name, sim, d = op["name"], self.sim, self.disk
        key = (name, bool(op.get("abs")))
        before = self.first.get(key)
        n0 = self.ops_of()
        t0 = sim.now
        t = exc = None
        try:
            t = self.loader.load(d.path(name) if op.get("abs") else name)
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except Exception as e:
            exc = e
        t1 = sim.now
        n1 = self.ops_of()
        did = {k: n1[k] - n0.get(k, 0) for k in n1 if n1[k] != n0.get(k, 0)}
        sim.log("load", name, type(exc).__name__, sorted(did.items()))
        quiet = not d.edited(-1, t1) and not sim.faults.get("EIO_stat")
        if exc is not None:
            if self.mode == "off" and before is not None:
                raise Violation("not-kept", "%s: reload is off, %s was loaded before, now: %s: %s" % (
                    where, name, type(exc).__name__, exc))
            if not any(d.troubled(n, t0 - ll.W, t1) for n in ll.deps(name)):
                raise Violation("load-failed", "%s: %s: %s: %s" % (where, name, type(exc).__name__, exc))
            return
        if before is not None and self.mode == "off":
            self.env.nontrivial = True
            if t is not before[0]:
                raise Violation("not-kept", "%s: reload is off, but %s is another template object" % (where, name))
            if did:
                raise Violation("disk-touched", "%s: reload is off, loading %s again did %s" % (where, name, did))
        if before is not None and self.mode == "same" and quiet:
            self.env.nontrivial = True
            if t is not before[0]:
                raise Violation("not-kept", "%s: no file changed, but %s is another template object" % (where, name))
            if any(k in READS for k in did):
                raise Violation("disk-touched", "%s: no file changed, loading %s again did %s" % (where, name, did))
        if before is not None and self.mode == "on":
            b0, bt0, bt1 = before[0], before[1], before[2]
            if not d.edited(bt0 - ll.W, t1) and not self.any_trouble(bt0 - ll.W, t1):
                sim.probe("unchanged_stretch")
                if t is not b0:
                    raise Violation("not-kept", "%s: no file changed since %.3f, but %s is another template object" % (
                        where, bt0, name))
        if before is None or self.mode == "on":
            self.first[key] = (t, t0, t1)
        if before is None or op.get("hold"):
            self.keep.append([name, t, None, (t0, t1)])
            self.render_held(self.keep[-1], where)

    def blink(self, op, where):
        """Reloading is on for a while; what is loaded then stays."""
        self.sim.sleep(op["dt"])
        self.first.clear()
        self.libs.clear()
        self.__dict__.pop("fillers", None)
        self.loader.set_reload(True)
        self.mode = "blink"
        try:
            self.load_op({"name": op["name"]}, where)
        finally:
            self.mode = "off"
            self.loader.set_reload(False)

    def any_trouble(self, t0, t1):
        return any(self.disk.troubled(n, t0, t1) for n in self.names)

    def held_op(self, op, where):
        if self.keep:
            self.env.nontrivial = True
            self.render_held(self.keep[op["pick"] % len(self.keep)], where)

    def render_held(self, h, where):
        name, t = h[0], h[1]
        d = self.disk
        t0 = self.sim.now
        ctx = self.context()
        own = self.chain(name)
        imported = [n for n in ll.deps(name) if n not in own]
        try:
            text = t.render(dict(ctx))
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except Exception as e:
            # what it imports is loaded when it renders
            if any(d.troubled(n, t0 - ll.W, self.sim.now) for n in imported):
                return
            raise Violation("held-failed", "%s: rendering a template held since %.3f: %s: %s" % (
                where, h[3][0], type(e).__name__, e))
        t1 = self.sim.now
        if any(d.was_torn(n, h[3][0] - ll.W, h[3][1]) for n in own) or any(
                d.was_torn(n, -1, t1) for n in imported):
            return
        marks = ll.parse_marks(text)
        versions = {}
        for n in ll.deps(name):
            seen = marks.get(n, set())
            if len(seen) != 1:
                raise Violation("incomplete", "%s: %s shows versions %s of %s" % (where, name, sorted(seen), n))
            versions[n] = min(seen)
        for n in imported:
            # looked up when it renders: what any load would give
            if self.mode == "off":
                if self.libs.setdefault(n, versions[n]) != versions[n]:
                    raise Violation("not-kept", "%s: reload is off, %s imported version %d of %s, earlier %d" % (
                        where, name, versions[n], n, self.libs[n]))
                continue
            ok = d.ever(n, t1) if d.troubled(n, t0 - ll.W, t1) else d.during(n, t0 - ll.W, t1)
            if ("v", versions[n]) not in ok:
                raise Violation("stale-import", "%s: %s held since %.3f shows version %d of %s, which was not current "
                                "when it rendered at %.3f: %s" % (where, name, h[3][0], versions[n], n, t0, ok))
        ov = {n: versions[n] for n in own}
        if h[2] is None:
            h[2] = ov
        elif ov != h[2]:
            raise Violation("held-changed", "%s: the %s held since %.3f showed %s, now %s" % (
                where, name, h[3][0], h[2], ov))
        rl.check_same(text, d.expected(name, versions, ctx), "%s: %s %s" % (where, name, versions))


def execute(env):
    World(env).run()
