"""C07: concurrent loading gives every thread a complete, current template."""
from .. import loadlib as ll, renderlib as rl, tmpl, worker

ID = "C07"
RUNS = {"quick": 2600, "thorough": 200000}
REAL = ["tonnikala.loader.FileLoader", "template compiler", "files in a scratch directory"]
STUBS = ["thread scheduling (line- and instruction-level preemption)", "locks", "clocks", "stalled threads"]
RULE = ("2-5 threads load and render compositions of several files while another edits them, preempted at any line "
        "(or instruction) of the loader, runtime and templates and stalled for up to 0.4 s; every load is checked "
        "against the versions current in its window, and final loads against the final contents; non-trivial: loads "
        "of at least two threads overlapped and there was an edit")


def draw_sched(rng):
    s = worker.default_sched(rng, est=1500, fine_p=0.4, deep_p=0.05)
    s["stall_p"] = rng.choice([0, 0, 0.02, 0.2])
    s["stall_max"] = rng.choice([0.1, 0.4, 1.0])
    return s


def generate(rng, tier):
    plan = ll.base_plan(rng, reload=rng.random() < 0.93, short=rng.choice([0, 0, 0, 64]))
    names = plan["names"]
    focus = [n for n in names if len(ll.deps(n)) > 1] or names
    nt = rng.choice([2, 2, 3, 3, 4])
    # (with locks of their own)
    others = rng.random() < 0.25
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.5:
                ops.append({"op": "sleep", "dt": rng.choice([0.001, 0.01, 0.1, 0.25, 0.26, 0.3, 0.55])})
            n = rng.choice(focus) if rng.random() < 0.7 else rng.choice(names)
            ops.append({"op": "load", "name": n})
            if others:
                ops[-1]["loader"] = rng.choice([0, 0, 1, "string"])
        plan["tasks"].append(ops)
    if plan["reload"]:
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops.append({"op": "sleep", "dt": rng.choice([0.0, 0.001, 0.01, 0.1, 0.26, 0.3, 0.55])})
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(dict(ll.draw_change(rng), op="edit", name=rng.choice(names)))
        plan["tasks"].append(ops)
        if rng.random() < 0.3:
            plan["tasks"][rng.randrange(nt)].insert(0, {
                "op": "trigger", "name": rng.choice(names), "at": rng.choice(["open", "fstat", "read", "stat"]),
                "after": rng.choice([0, 0, 1, 2]), "change": ll.draw_change(rng)})
    plan["aba"] = False
    return ll.add_moves(rng, ll.add_fillers(rng, plan))


shrinks = ll.shrinks


class World(ll.LoadWorld):
    loading = 0

    def load_op(self, op, where):
        self.loading += 1
        if self.loading > 1:
            self.sim.probe("loads_overlapped")
            self.env.nontrivial = bool(self.disk.edits) or not self.env.plan["reload"]
        try:
            if op.get("loader") == "string":
                return self.load_string(op["name"], where)
            t0, t1, t, text, exc, ctx = self.load_render(op["name"], loader=self.other if op.get("loader") else None)
        finally:
            self.loading -= 1
        self.check_load(op["name"], t0, t1, text, exc, ctx, where)

    def __init__(self, env):
        ll.LoadWorld.__init__(self, env)
        self.other = self.FileLoader(self.disk.dirs)
        self.other.set_reload(env.plan["reload"])

    def load_string(self, name, where):
        """A template that belongs to no file."""
        versions = {n: [s for s in self.disk.ever(n, self.sim.now) if s[0] == "v"][-1][1] for n in ll.deps(name)}
        f = self.disk.src[name, versions[name]][0]
        if f["ext"] or f["imports"]:
            return
        ctx = self.context()
        text = self.other.load_string(tmpl.source(f)).render(dict(ctx))
        rl.check_same(text, self.disk.expected(name, versions, ctx), "%s: %s given as a string" % (where, name))

    def final(self):
        if not self.env.plan["reload"]:
            return
        del self.disk.triggers[:]
        self.sim.now += 0.51
        for n in sorted(self.names, key=lambda n: self.sim.rng.random()):
            t0, t1, t, text, exc, ctx = self.load_render(n)
            self.check_load(n, t0, t1, text, exc, ctx, "after the last edit")


def execute(env):
    w = World(env)
    w.run()
    w.final()
