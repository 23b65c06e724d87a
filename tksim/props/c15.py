"""C15: results do not depend on the order in which templates are loaded."""
import os

from .. import boot, core, renderlib as rl, tmpl, worker
from ..core import Violation

ID = "C15"
RUNS = {"quick": 1200, "thorough": 100000}
REAL = ["tonnikala.loader.FileLoader", "template compiler", "tonnikala.runtime (C and Python buffer)",
        "compiled templates", "files in a scratch directory"]
STUBS = ["thread scheduling", "locks", "clocks", "disk errors", "asynchronous exceptions"]
RULE = ("an inheritance tree up to six levels deep with several children per template, libraries importing libraries, "
        "templates imported as libraries, the same function, block, argument and alias names used in unrelated "
        "templates; 1-3 tasks load and render them in any order through 1-3 loaders by plain, relative and absolute "
        "names or from text (another loader has other templates of the same names), while some loads fail (missing base, invalid file, disk error) or are interrupted; every "
        "page is compared with the model, which has no history; non-trivial: a page whose base or library had been "
        "loaded, rendered or failed before")


def draw_sched(rng):
    return worker.default_sched(rng, est=3000, fine_p=0.2, deep_p=0.3)


class Tree(object):
    def __init__(self, rng):
        self.rng = rng
        self.g = tmpl.Gen(rng, feat={"lit": True, "plus": False}, maxdepth=rng.choice([2, 3, 3]))
        self.env = self.g.context_vars()
        self.files = {}
        self.sigs = {}          # file -> [(function, arguments)] it provides
        self.blocks = {}
        self.depth = {}

    def start(self):
        # the same names again in every file
        self.g.n = self.rng.choice([0, 0, 1])
        self.g.taken.clear()

    def mods(self, cands):
        """Some libraries under one to two aliases."""
        out = {}
        for alias in self.rng.sample(["lib", "m", "u"], self.rng.choice([0, 1, 1, 2])):
            if cands:
                n = self.rng.choice(cands)
                out[alias] = (n, self.sigs[n])
        return out

    def lib(self, name, cands):
        self.start()
        f, sig, blocks = self.g.file(self.env, mods=self.mods(cands), ndefs=self.rng.randint(1, 3), size=(0, 2),
                                     nblocks=self.rng.choice([0, 0, 1]))
        self.local_imports(f, cands)
        self.add(name, f, sig, blocks)

    def local_imports(self, f, cands):
        """py:import somewhere inside the page."""
        rng = self.rng
        cands = [c for c in cands if self.sigs[c]]
        bodies = [d[3] for d in f["defs"]] + [
            b[2] for b in f["body"] if b[0] == "block" or b[0] == "if" and not tmpl.decided(b[1])]
        while cands and bodies and rng.random() < 0.2:
            n = rng.choice(cands)
            fn, na = rng.choice(self.sigs[n])
            alias = self.g.name("q")
            rng.choice(bodies).extend([["imp", n, alias], ["E", self.g.probe(
                ["at", alias, fn, [["c", "'%d" % i] for i in range(na)]])]])

    def add(self, name, f, sig, blocks):
        self.files[name] = f
        self.sigs[name] = sig
        self.blocks[name] = blocks
        self.depth[name] = self.depth.get(f.get("ext"), -1) + 1

    def root(self, name, cands):
        self.start()
        f, sig, blocks = self.g.file(self.env, mods=self.mods(cands), ndefs=self.rng.randint(0, 3),
                                     nblocks=self.rng.randint(1, 3))
        self.local_imports(f, cands)
        self.add(name, f, sig, blocks)

    def child(self, name, parent, cands):
        rng = self.rng
        self.start()
        sig, blocks = list(self.sigs[parent]), list(self.blocks[parent])
        env = dict(self.env)
        f = self.g.child(env, parent, blocks, sig, self.mods(cands))
        env2 = dict(self.env)
        for a, n in f["imports"]:
            env2[n] = ("m", self.sigs[a])
        for fn, na in sig:
            env2[fn] = self.g.fenv(fn, na)
        for node in list(f["body"]):
            r = rng.random()
            if r < 0.25:
                # a block of its own inside an overridden one
                b = "nb%d" % len(blocks)
                node[2].insert(rng.randint(0, len(node[2])), ["block", b, self.g.kids(env2, 2, 1, 3)])
                blocks.append(b)
            elif r < 0.5 and sig:
                fn, na = rng.choice(sig)
                node[2].append(["E", self.g.probe(["call", fn, [["c", "<%d" % i] for i in range(na)]])])
        for _ in range(rng.choice([0, 0, 1, 2])):
            d, fn, na = self.g.top_def({k: v for k, v in self.env.items()})
            d[1] = "own%d_%d" % (self.depth[parent] + 1, len(sig))
            fn = d[1]
            f["defs"].append(d)
            sig.append((fn, na))
            if f["body"]:
                node = rng.choice(f["body"])
                node[2].append(["E", self.g.probe(["call", fn, [["c", "&%d" % i] for i in range(na)]])])
        self.local_imports(f, cands)
        self.add(name, f, sig, blocks)

    def make(self):
        rng = self.rng
        libs = []
        for i in range(rng.randint(0, 3)):
            # also names that differ in their directory only
            n = rng.choice(["lib%d.tk" % i, "s/base%d.tk" % i, "s/child%d.tk" % i, "s/s/base%d.tk" % i])
            self.lib(n, libs)
            libs.append(n)
        fam = []
        for i in range(rng.choice([1, 1, 2])):
            self.root("base%d.tk" % i, libs + fam)
            fam.append("base%d.tk" % i)
        deep = rng.random() < 0.4
        for i in range(rng.randint(1, 6)):
            n = "child%d.tk" % i
            self.child(n, fam[-1] if deep and i else rng.choice(fam), libs + (fam if rng.random() < 0.2 else []))
            fam.append(n)
        for i in range(rng.randint(0, 2)):
            self.root("page%d.tk" % i, libs + fam)
        if rng.random() < 0.3:
            # names that differ in little from another one
            n = rng.choice(sorted(self.files))
            d, b = os.path.split(n)
            b = rng.choice([b.capitalize(), b.upper(), b + "x", b[:-3], b.replace("0", "O"), b.replace(".", " ."), b])
            n = os.path.join(rng.choice([d, d, "s", "s/s", ""]), b)
            if n not in self.files:
                self.root(n, libs + fam)
        return self.files


BROKEN = {
    "orphan.tk": "<py:extends href=\"nosuch.tk\"><py:block name=\"a\">x</py:block></py:extends>",
    "bad.tk": "<html xmlns:py=\"http://www.tonnikala.org/ns\"><py:if test=\"1 +\">x</py:if></html>",
    "cut.tk": "<html><p>${a.b",
    "late.tk": "<html xmlns:py=\"http://www.tonnikala.org/ns\"><py:import href=\"nosuch.tk\" alias=\"lib\"/>${lib.f()}</html>",
    "heir.tk": "<py:extends href=\"bad.tk\"><py:block name=\"a\">x</py:block></py:extends>",
}


def generate(rng, tier):
    t = Tree(rng)
    files = t.make()
    env = t.env
    plan = {"files": files, "loaders": [rng.random() < 0.4 for _ in range(rng.choice([1, 1, 2, 3]))],
            "dirs": {n: rng.choice([0, 0, 0, 1]) for n in files}, "preload": False, "tasks": [],
            "foreign": rng.choice([None, None, None, False, True])}
    names = sorted(files)
    nl = len(plan["loaders"])
    i = 0
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 7)):
            i += 1
            r = rng.random()
            ldr = rng.randrange(nl)
            form = rng.choice(["plain", "plain", "plain", "dot", "abs", "string"])
            if r < 0.13:
                ops.append({"op": "load", "name": rng.choice(names), "ldr": ldr, "form": form})
            elif r < 0.2:
                ops.append({"op": "bad", "name": rng.choice(sorted(BROKEN) + ["nosuch.tk"]), "ldr": ldr})
            elif r < 0.28:
                ops.append({"op": "io", "name": rng.choice(names), "ldr": ldr, "form": form,
                            "victim": rng.choice(names), "at": rng.choice(["open", "read", "fstat"])})
            elif r < 0.36:
                ops.append({"op": "kill", "name": rng.choice(names), "ldr": ldr, "form": form,
                            "after": core.draw_interrupt(rng, 3.2, 160)})
            elif r < 0.38 or r < 0.5 and plan["foreign"] is not None:
                ops.append({"op": "foreign", "name": rng.choice(names), "form": form})
            elif r < 0.54:
                ops.append({"op": "sleep", "dt": rng.choice([0.1, 0.3, 1.0])})
            else:
                o = rl.draw_op(rng, files, env, "r%d_" % i, nest_p=0.2, fail_p=0.12)

                def place(o):
                    o["ldr"] = rng.randrange(nl)
                    o["form"] = rng.choice(["plain", "plain", "plain", "dot", "abs", "string"])
                    o["string"] = False
                    for a in (o.get("nest") or {}).values():
                        if "op" in a:
                            place(a["op"])
                place(o)
                o["op"] = "render"
                ops.append(o)
        plan["tasks"].append(ops)
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p
    used = set()

    def need(n):
        if n in used or n not in plan["files"]:
            return
        used.add(n)
        f = plan["files"][n]
        if f.get("ext"):
            need(f["ext"])
        for h, _ in f.get("imports") or ():
            need(h)

    def look(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("name", "tmpl", "victim"):
                    need(v)
                else:
                    look(v)
        elif isinstance(o, list):
            for v in o:
                look(v)

    look(plan["tasks"])
    if used < set(plan["files"]):
        yield dict(plan, files={n: plan["files"][n] for n in used})


class World(rl.World):
    def __init__(self, env):
        from tonnikala.loader import FileLoader
        from tonnikala.runtime.exceptions import TemplateSyntaxError

        self.TemplateSyntaxError = TemplateSyntaxError
        self.env = env
        self.sim = env.sim
        self.files = plan = env.plan["files"]
        self.dirs = []
        self.path = {}
        for i in (0, 1, 2):
            d = os.path.join(env.root, "d%d" % i)
            os.makedirs(os.path.join(d, "s", "s"))
            self.dirs.append(d)
        for n, f in plan.items():
            d = env.plan["dirs"].get(n, 0)
            self.write(self.dirs[d], n, tmpl.source(f))
            self.path[n] = os.path.join(self.dirs[d], n)
            if d == 0:
                self.write(self.dirs[1], n, "<html>not this one</html>")
        for n, text in BROKEN.items():
            self.write(self.dirs[0], n, text)
        # other templates of the same names, elsewhere
        self.other = self.dirs.pop()
        self.foreign = FileLoader([self.other])
        self.foreign.set_reload(bool(env.plan.get("foreign")))
        for n, f in plan.items():
            self.write(self.other, n, "<py:extends href=\"%s\"></py:extends>" % f["ext"] if f.get("ext") else
                       "<html>other %s</html>" % n)
        self.loaders = []
        for reload in env.plan["loaders"]:
            ld = FileLoader(list(self.dirs))
            ld.set_reload(reload)
            self.loaders.append(ld)
        self.active = 0
        self.late = []
        self.lines = None
        self.check_log = self.check_text = self.check_exc = True
        self.touched = set()
        self.fault = {}         # task -> (path, operation)
        self.hits = {}
        boot.fs.hook = self.hook

    def write(self, d, n, text):
        with boot.real.open(os.path.join(d, n), "w", encoding="utf-8", newline="") as fo:
            fo.write(text)

    def hook(self, op, path):
        if self.sim.cur is None:
            return
        f = self.fault.get(self.sim.cur.tid)
        if f == (path, op):
            del self.fault[self.sim.cur.tid]
            self.hits[self.sim.cur.tid] = self.hits.get(self.sim.cur.tid, 0) + 1
            self.sim.fault("EIO_" + op)
            raise OSError(5, "Input/output error", path)

    def touch(self, name, ldr):
        """Note what has been loaded; was something of it there before?"""
        while name in self.files:
            if (name, ldr) in self.touched:
                self.env.nontrivial = True
            self.touched.add((name, ldr))
            for h, _ in self.files[name].get("imports") or ():
                self.touched.add((h, ldr))
            name = self.files[name].get("ext")

    def get(self, name, ldr, form):
        ld = self.loaders[ldr % len(self.loaders)]
        self.touch(name, ldr)
        if form == "string":
            return ld.load_string(tmpl.source(self.files[name]), filename="<sim %s>" % name)
        if form == "dot":
            return ld.load("./" + name)
        if form == "abs":
            return ld.load(self.path[name])
        return ld.load(name)

    def template(self, op):
        return self.get(op["tmpl"], op["ldr"], op["form"])

    def do(self, op, where):
        k = op["op"]
        sim = self.sim
        if k == "render":
            self.perform(op, where)
        elif k == "sleep":
            sim.sleep(op["dt"])
        elif k == "foreign":
            n = root = op["name"]
            while self.files.get(root, {}).get("ext"):
                root = self.files[root]["ext"]
            if root not in self.files:
                return          # (a shrunk plan)
            form = op["form"]
            t = self.foreign.load("./" + n if form == "dot" else os.path.join(self.other, n) if form == "abs" else n)
            got, want = t.render({}), "<html>other %s</html>" % root
            if got != want:
                raise Violation("wrong-output", "%s: %s of another directory gives %r instead of %r" % (
                    where, n, got, want))
            self.env.nontrivial = True
        elif k == "load":
            self.get(op["name"], op["ldr"], op["form"])
        elif k == "bad":
            ld = self.loaders[op["ldr"]]
            try:
                t = ld.load(op["name"])
                if op["name"] == "late.tk":
                    t.render({})
                raise Violation("bad-loaded", "%s: the invalid template %s was loaded" % (where, op["name"]))
            except (OSError, self.TemplateSyntaxError) as e:
                sim.probe("bad_" + type(e).__name__)
            except (Violation, core.HarnessError, core.SimAbort):
                raise
            except Exception as e:
                raise Violation("wrong-error", "%s: %s: %s: %s" % (where, op["name"], type(e).__name__, e))
        elif k == "io":
            me = sim.cur.tid
            self.fault[me] = (self.path[op["victim"]], op["at"])
            n0 = self.hits.get(me, 0)
            try:
                self.get(op["name"], op["ldr"], op["form"])
            except OSError:
                if self.hits.get(me, 0) == n0:
                    raise
            self.fault.pop(me, None)
        elif k == "kill":
            me = sim.cur
            injected = []

            def factory():
                injected.append(KeyboardInterrupt("simulated"))
                return injected[0]
            self.sim.interrupt(op["after"], factory)
            try:
                self.get(op["name"], op["ldr"], op["form"])
            except KeyboardInterrupt:
                if not injected:
                    raise
                sim.probe("load_interrupted")
            self.sim.no_interrupt()
            if injected:
                injected[0].__traceback__ = None
        else:
            raise core.HarnessError("op %r" % (op,))

    def run(self):
        plan, sim = self.env.plan, self.sim
        self.env.measure = "l%d t%d f%d" % (len(plan["loaders"]), len(plan["tasks"]), len(plan["files"]))
        for i, ops in enumerate(plan["tasks"]):
            def body(i=i, ops=ops):
                for j, op in enumerate(ops):
                    self.do(op, "task%d.%d" % (i, j))
                self.flush_late()
            sim.spawn("task%d" % i, body)
        sim.run()
        self.flush_late()


def execute(env):
    World(env).run()
