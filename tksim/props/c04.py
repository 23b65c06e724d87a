"""C04: expressions are evaluated exactly once, in document order."""
from .. import renderlib as rl, tmpl

ID = "C04"
RUNS = {"quick": 2400, "thorough": 100000}
REAL = ["template compiler", "tonnikala.loader", "tonnikala.runtime (C and Python buffer)", "compiled templates"]
STUBS = ["thread scheduling", "locks", "clock", "disk (real files behind a fault seam, no faults here)"]
RULE = ("1-3 tasks of renders whose expressions and value conversions are logged, some failing or nesting further "
        "renders; the log of every render is compared with the model's; non-trivial: a log with at least 5 entries")


def generate(rng, tier):
    g = tmpl.Gen(rng, feat={"lit": True, "tal": rng.random() < 0.1, "plus": False}, maxdepth=rng.choice([3, 4, 5, 6]))
    env = g.context_vars()
    files = g.fileset(env)
    plan = {"files": files, "preload": rng.random() < 0.85, "tasks": []}
    i = 0
    objs = rng.choice([0, 0.3, 0.7, 1.0])
    for t in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            i += 1
            op = rl.draw_op(rng, files, env, "r%d_" % i, nest_p=0.25, fail_p=0.4, objs=objs)
            op["capture"] = []
            ops.append(op)
        plan["tasks"].append(ops)
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p


class World(rl.World):
    def outcome(self, op):
        o = rl.World.outcome(self, op)
        if len(o.log) >= 5:
            self.env.nontrivial = True
        return o


def execute(env):
    w = World(env)
    w.check_text = False
    w.check_exc = False
    w.run_tasks(env.plan["preload"])
