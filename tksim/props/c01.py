"""C01: concurrent and nested renders never interfere."""
from .. import renderlib as rl, tmpl

ID = "C01"
RUNS = {"quick": 2200, "thorough": 100000}
REAL = ["tonnikala.loader", "tonnikala.runtime (C and Python buffer)", "template compiler", "compiled templates"]
STUBS = ["thread scheduling", "locks", "clock", "disk (real files behind a fault seam, no faults here)"]
RULE = ("a random file set (bases, children, grandchildren, imported functions, standalone pages), 1-4 tasks "
        "with 1-5 renders each of random pages and contexts, nested renders started from inside expressions, "
        "held buffers and captured functions, under a random preemption policy; non-trivial: at least two renders "
        "overlapped (a switch or a nested render while a render was in progress)")


def generate(rng, tier):
    g = tmpl.Gen(rng, feat={"lit": True, "tal": rng.random() < 0.1}, maxdepth=rng.choice([3, 4, 4, 5]))
    env = g.context_vars()
    files = g.fileset(env)
    plan = {"files": files, "preload": rng.random() < 0.7, "tasks": []}
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    same = rng.choice(sorted(files)) if rng.random() < 0.35 and nt > 1 else None
    i = 0
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(1, 3 if nt > 1 else 5)):
            i += 1
            ops.append(rl.draw_op(rng, files, env, "r%d_" % i, page=same if rng.random() < 0.7 else None))
        plan["tasks"].append(ops)
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p


def execute(env):
    rl.World(env).run_tasks(env.plan["preload"])
