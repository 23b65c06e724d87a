"""C05: with reload on, edited templates are picked up promptly."""
from .. import loadlib as ll

ID = "C05"
RUNS = {"quick": 3000, "thorough": 200000}
REAL = ["tonnikala.loader.FileLoader", "template compiler", "codecs", "files and modification times in a scratch directory"]
STUBS = ["monotonic and wall clock", "thread scheduling", "locks", "disk timing (edits placed between any two file operations)"]
RULE = ("a history of loads, sleeps, edits (by rename, in place, by symlink; modification times earlier or later, "
        "close or far apart; back to an older version; moved between search paths with copies left behind), wall clock jumps and edits placed inside a load, in 1-3 "
        "tasks; every load is checked against the versions current within half a second before it; non-trivial: "
        "a load succeeded after an edit")


def generate(rng, tier):
    plan = ll.base_plan(rng, reload=True, short=rng.choice([0, 0, 0, 64, 1]))
    names = plan["names"]
    single = rng.random() < 0.55
    nt = 1 if single else rng.choice([2, 2, 3])
    for t in range(nt):
        ops = []
        editor = single or t == 0
        loader = single or t > 0
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if editor and r < 0.3:
                ops.append(dict(ll.draw_change(rng), op="edit", name=rng.choice(names)))
                if rng.random() < 0.3:
                    ops.append({"op": "jump", "dt": draw_jump(rng)})
            elif editor and r < 0.38:
                ops.append({"op": "trigger", "name": rng.choice(names), "at": rng.choice(["open", "fstat", "read", "stat"]),
                            "after": rng.choice([0, 0, 0, 1, 2]), "change": ll.draw_change(rng)})
            elif r < 0.43:
                ops.append({"op": "jump", "dt": draw_jump(rng)})
            elif editor and r < 0.45:
                ops.append({"op": "reload", "on": False})
                ops.append(dict(ll.draw_change(rng), op="edit", name=rng.choice(names)))
                ops.append({"op": "sleep", "dt": ll.draw_dt(rng)})
                ops.append({"op": "reload", "on": True})
            elif r < 0.72 or not loader:
                ops.append({"op": "sleep", "dt": ll.draw_dt(rng)})
            elif r < 0.8:
                # a busy site: one load after another, never half a second apart
                name = rng.choice(names)
                for _ in range(rng.randint(2, 7)):
                    ops.append({"op": "load", "name": name})
                    ops.append({"op": "sleep", "dt": round(rng.uniform(0.01, 0.2), 3)})
            else:
                ops.append(ll.draw_load(rng, names))
        if single and nt == 1:
            for n in names:
                ops.append({"op": "sleep", "dt": rng.choice([0.001, 0.51])})
                ops.append({"op": "load", "name": n})
        plan["tasks"].append(ops)
    return ll.settle_aba(rng, ll.add_moves(rng, ll.add_fillers(rng, plan)))


def draw_jump(rng):
    return rng.choice([-1, 1]) * rng.choice([0.2, 1.0, 3600.0, 86400.0 * 400])


shrinks = ll.shrinks


def execute(env):
    w = ll.LoadWorld(env)
    if len(env.plan["tasks"]) > 1:
        # turning reloading off affects every task: only done in single-task runs
        for ops in env.plan["tasks"]:
            ops[:] = [o for o in ops if o["op"] != "reload"]
    w.run()
