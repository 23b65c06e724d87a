"""C06: with reload on, a broken or missing file affects only its dependents."""
from .. import loadlib as ll

ID = "C06"
RUNS = {"quick": 3000, "thorough": 200000}
REAL = ["tonnikala.loader.FileLoader", "template compiler", "codecs", "files in a scratch directory"]
STUBS = ["clocks", "thread scheduling", "locks", "disk errors (raised at the file operations of chosen files)"]
RULE = ("a history in which template files are deleted, broken (syntax, expression, encoding, truncation, emptied), "
        "unreadable (EACCES, EIO, EMFILE, ENOENT, ESTALE at stat, open, fstat or read) and restored, in 1-3 tasks; every load "
        "is checked: pages not depending on a broken file must be up to date, dependents raise a describing error or show a "
        "complete earlier version, and everything recovers; non-trivial: a load ran while some file was in trouble")
ERRNOS = [13, 5, 24, 2, 116, 12]


def generate(rng, tier):
    plan = ll.base_plan(rng, reload=True, short=rng.choice([0, 0, 0, 64]))
    names = plan["names"]
    nt = rng.choice([1, 1, 1, 2, 3])
    for t in range(nt):
        ops = []
        editor = nt == 1 or t == 0
        loader = nt == 1 or t > 0
        for _ in range(rng.randint(4, 13)):
            r = rng.random()
            if editor and r < 0.27:
                ops.append(dict(ll.draw_change(rng, bad=0.6), op="edit", name=rng.choice(names)))
                if rng.random() < 0.6:
                    ops.append({"op": "sleep", "dt": ll.draw_dt(rng)})
            elif editor and r < 0.38:
                ops.append({"op": "fault", "name": rng.choice(names),
                            "ops": rng.choice([["stat"], ["open"], ["read"], ["fstat"], ["open", "read", "stat", "fstat"]]),
                            "errno": rng.choice(ERRNOS), "times": rng.choice([1, 1, 2, 3, 50])})
            elif editor and r < 0.43:
                ops.append({"op": "clear"})
            elif editor and r < 0.47:
                ops.append({"op": "trigger", "name": rng.choice(names), "at": rng.choice(["open", "fstat", "read", "stat"]),
                            "after": rng.choice([0, 0, 1, 2]), "change": ll.draw_change(rng, bad=0.6)})
            elif r < 0.65 or not loader:
                ops.append({"op": "sleep", "dt": ll.draw_dt(rng)})
            else:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ops.append(ll.draw_load(rng, names))
        plan["tasks"].append(ops)
    return ll.settle_aba(rng, ll.add_moves(rng, ll.add_parking(rng, ll.add_fillers(rng, plan))))


shrinks = ll.shrinks


class World(ll.LoadWorld):
    def load_op(self, op, where):
        t0, t1, t, text, exc, ctx = self.load_render(op["name"], op.get("abs"))
        self.check_load(op["name"], t0, t1, text, exc, ctx, where)
        if any(self.disk.troubled(n, t0 - ll.W, t1) for n in self.names):
            self.env.nontrivial = True
            if exc is not None:
                self.sim.probe("load_failed")
            elif any(self.disk.troubled(n, t0 - ll.W, t1) for n in ll.deps(op["name"])):
                self.sim.probe("loaded_despite_trouble")
            else:
                self.sim.probe("unaffected_load")

    def recover(self):
        """The end: every file valid and readable, then everything must load."""
        d, sim = self.disk, self.sim
        d.clear_faults()
        del d.triggers[:]
        d.unpark()
        for i, n in enumerate(self.names):
            if d.hist[n][-1][1][0] != "v":
                d.install(n, {"what": "new", "how": "replace", "mtime": 7.5 + i})
        sim.now += 0.6
        for n in self.names:
            t0, t1, t, text, exc, ctx = self.load_render(n)
            self.check_load(n, t0, t1, text, exc, ctx, "after the end")


def execute(env):
    w = World(env)
    w.run()
    w.recover()
