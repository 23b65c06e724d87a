"""C02: a failing render raises its own error and damages nothing."""
from .. import core, renderlib as rl, tmpl

ID = "C02"
RUNS = {"quick": 2750, "thorough": 100000}
REAL = ["tonnikala.loader", "tonnikala.runtime.debug", "tonnikala.runtime (C and Python buffer)",
        "template compiler", "compiled templates"]
STUBS = ["thread scheduling", "locks", "clock", "disk (real files behind a fault seam, no faults here)"]
RULE = ("1-3 tasks of renders in which planned expressions fail: while evaluated, while converted to text, while "
        "iterated, or in a nested render whose error is passed on or caught; and renders interrupted by "
        "KeyboardInterrupt at a random point; checked: identity and contents of the exception, the caller's "
        "context, the expressions evaluated, and the exact output of every other and later render; "
        "non-trivial: at least one render failed")


def generate(rng, tier):
    g = tmpl.Gen(rng, feat={"lit": True, "tal": rng.random() < 0.1, "plus": False}, maxdepth=rng.choice([3, 4, 4, 5]))
    env = g.context_vars()
    files = g.fileset(env)
    plan = {"files": files, "preload": rng.random() < 0.85, "tasks": []}
    nt = rng.choice([1, 1, 2, 2, 3])
    same = rng.choice(sorted(files)) if rng.random() < 0.5 else None
    i = 0
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(2, 4)):
            i += 1
            op = rl.draw_op(rng, files, env, "r%d_" % i, nest_p=0.3, fail_p=0.55,
                            page=same if rng.random() < 0.6 else None)
            if not any("op" in a for a in (op.get("nest") or {}).values()) and rng.random() < 0.35:
                op["interrupt"] = core.draw_interrupt(rng, 2.8, 20)
                op["string"] = False
            ops.append(op)
        plan["tasks"].append(ops)
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p


class World(rl.World):
    def check_failed(self, what, exc, p, want):
        self.env.nontrivial = True
        rl.World.check_failed(self, what, exc, p, want)

    def check_interrupted(self, what, exc, injected, p, want):
        self.env.nontrivial = True
        rl.World.check_interrupted(self, what, exc, injected, p, want)


def execute(env):
    World(env).run_tasks(env.plan["preload"])
