"""C17: browser templates work in any module arrival order and interleaving."""
import json
import os
import subprocess

from .. import boot, core, jstmpl, renderlib as rl, tmpl
from ..core import Violation

ID = "C17"
RUNS = {"quick": 800, "thorough": 60000}
BUFFERS = ("c",)
REAL = ["JSLoader, the HTML parser and the JavaScript generator", "slimit", "tonnikala/runtime/javascript.js",
        "the compiled modules, run by V8 in a context of their own"]
STUBS = ["the module loader (define, require) in three styles", "the network that delivers the scripts",
         "clients (turns of the event loop)", "jQuery's $", "Date, Math.random and timers (absent)"]
RULE = ("a drawn set of js: templates (inheritance, blocks, functions, loops, js:with, attributes, conversions) is "
        "compiled and given, with the real runtime, to a simulated page; scripts arrive in a drawn order with delays, "
        "duplicates, failures and truncations, alone or bundled; the factories run as soon as possible, when required, "
        "or synchronously; 1-3 clients bind templates to contexts that they share and change, render them again and "
        "again, inside of each other and with failing expressions; every output, every evaluation and every error is "
        "compared with the model; non-trivial: several templates or contexts alive, a nest, a failure or a network fault")
HOWS = ["render", "render", "render", "toString", "html", "concat", "appendTo", "prependTo", "insertAfter", "insertBefore"]
NET = ["error", "truncated", "duplicate", "delay2", "delay9"]
RUNTIME = "tonnikala/runtime"
# that every object has
PROPERTIES = ["valueOf", "toString", "constructor", "isPrototypeOf", "hasOwnProperty", "toLocaleString",
              "propertyIsEnumerable", "__defineGetter__"]


def setup():
    from tonnikala.loader import JSLoader

    JSLoader().load_string("<html>${a}</html>")
    JSLoader(minify=True).load_string("<html>${a}</html>")


def huge(rng):
    """One template whose function, block or loop outputs very many pieces."""
    loop = ["for", "i", ["v", "l0"], rng.choice([[["E", ["v", "i"]]], [["T", "x"], ["E", ["v", "i"]]]])]
    kind = rng.choice(["def", "block", "loop", "attrs"])
    call = ["E", ["call", "f", []]]
    body = {"def": [call, ["T", "."], call], "block": [["block", "blk", [loop]]], "loop": [loop],
            "attrs": [["el", "p", [["title", ["x", ["call", "f", []]]]], {}, [["T", "."]]]]}[kind]
    f = {"ext": None, "imports": [], "defs": [["def", "f", [], [loop]]], "body": [["T", "a"]] + body + [["T", "z"]]}
    return {"files": {"base": f}, "env": ["l0"], "ctxs": [{"l0": ["rep", 90000 + rng.randrange(50000)]}], "globals": {},
            "tasks": [[["need", ["base"]], ["bind", 0, "base", 0],
                       ["render", 1, 0, rng.choice(HOWS), {}, "pass"], ["render", 2, 0, rng.choice(HOWS), {}, "pass"]]],
            "net": {}, "style": "eager", "frozen": False, "minify": rng.random() < 0.5, "host": "window",
            "bundle": None, "choices": []}


def generate(rng, tier):
    if rng.random() < 0.01:
        return huge(rng)
    g = tmpl.Gen(rng, feat={"builtins": False, "lit": True, "forms": False, "jsforms": True,
                             "names": rng.choice([None, PROPERTIES])}, maxdepth=rng.choice([2, 3]))
    env = g.context_vars()
    files = {}
    base, sig, blocks = g.file(env, nblocks=rng.randint(1, 3))
    files["base"] = base
    for i in range(rng.randint(1, 2)):
        files["child%d" % i] = g.child(env, "base", blocks, sig)
    if rng.random() < 0.5:
        files["views/grand"] = g.child(env, "child0", blocks, sig)
    if rng.random() < 0.7:
        files["page"], _, _ = g.file(env)
    if rng.random() < 0.15:
        files["page"] = {"ext": "base", "imports": [], "defs": [], "body": []}
    index_variables(rng, files)
    names = sorted(files)
    mods = names + [RUNTIME]
    n = [0]

    def ident():
        n[0] += 1
        return n[0]

    def value(kind, tag):
        r = rng.random()
        if kind == "s" and r < 0.12:
            return [rng.choice(["html", "str"]), "<u>%s&" % tag, ident()]
        if kind == "s" and r < 0.15:
            return ["throws", rng.choice(["text", "type", "own"])]
        if kind == "s" and r < 0.2:
            return rng.choice([["undef"], ["n", None], ["b", True], ["i", 0]])
        if kind == "b" and r < 0.3:
            return rng.choice([["undef"], ["i", 0], ["s", ""], ["s", "x<"], ["i", 5]])
        v = tmpl.draw_context(rng, {"x": kind}, tag)["x"]
        return ["html", v[1], ident()] if v[0] == "m" else v

    ctxs = []
    for i in range(rng.randint(1, 3)):
        c = {v: value(k, "c%d_" % i) for v, k in env.items()}
        for v, k in env.items():
            if k != "l" and rng.random() < 0.06:
                del c[v]
        ctxs.append(c)
    globs = {v: rng.choice([["s", "global<%s" % v]] * 4 + [["i", 0], ["s", ""], ["b", False]] * (k in "sb")) for v, k in env.items() if k != "l" and rng.random() < 0.3}
    handles = []
    avail = []
    frozen = rng.random() < 0.2
    nprobe = g.k

    def nest(depth):
        out = {}
        if depth < 3 and nprobe:
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                k = str(rng.randint(1, nprobe))
                at = rng.choice([0, 0, 0, 1])
                if rng.random() < 0.4:
                    out[k] = {"at": at, "throw": rng.choice(["text", "type", "own"])}
                else:
                    out[k] = {"at": at, "steps": [s for _ in range(rng.randint(1, 2)) for s in steps(depth + 1)]}
        return out

    def render(h, depth):
        return ["render", ident(), h, rng.choice(HOWS), nest(depth), rng.choice(["pass", "keep"])]

    def steps(depth):
        r = rng.random()
        if r < 0.3 or not handles:
            h = len(handles)
            handles.append(h)
            return [["bind", h, rng.choice(avail), rng.randrange(len(ctxs))]] + (
                [render(h, depth)] if rng.random() < 0.7 else [])
        if r < 0.4 and not frozen:
            i = rng.randrange(len(ctxs))
            v = rng.choice(sorted(env))
            w = value(env[v], "d%d_" % ident())
            if env[v] == "s" and rng.random() < 0.4:
                w = ["h", rng.choice(handles)]
            return [["set", ident(), i, v, w]]
        return [render(rng.choice(handles), depth)]

    tasks = []
    for t in range(rng.choice([1, 2, 2, 3])):
        todo = []
        del avail[:]
        for _ in range(rng.randint(1, 3)):
            todo.append(["need", rng.sample(names, rng.randint(1, len(names)))])
            avail.extend(todo[-1][1])
            for _ in range(rng.randint(1, 4)):
                todo.extend(steps(0))
        tasks.append(todo)
    net = {}
    p = rng.choice([0, 0.2, 0.6])
    for m in mods:
        if rng.random() < p:
            net[m] = [rng.choice(NET) for _ in range(rng.choice([1, 1, 2, 4]))]
    order = list(mods)
    rng.shuffle(order)
    style = rng.choice(["eager", "eager", "lazy", "sync"])
    return {"files": files, "env": sorted(env), "ctxs": ctxs, "globals": globs, "tasks": tasks, "net": net,
            "style": style, "frozen": frozen, "minify": rng.random() < 0.1, "host": rng.choice(["window", "global"]),
            "bundle": order if style != "sync" and rng.random() < 0.2 else None,
            "choices": [rng.randrange(60) for _ in range(rng.choice([0, 60, 200]))]}


def index_variables(rng, x):
    """Some loops have a variable for the index too."""
    if isinstance(x, dict):
        f = x.get("for")
        if f and rng.random() < 0.3:
            f[0] += ", k" + f[0]
        a = x.get("attrs")
        if isinstance(a, list) and a and a[0] == "dict" and rng.random() < 0.5:
            x["attrs"] = rng.choice([["?", ["v", "b0"], a, ["c", None]], ["&&", ["v", "b0"], a], ["dict", []],
                                     ["?", ["v", "b0"], a, ["c", False]], ["?", ["v", "b0"], a, ["dict", []]]])
        for y in x.values():
            index_variables(rng, y)
    elif isinstance(x, list):
        if x and x[0] == "for" and len(x) == 4 and rng.random() < 0.3:
            k = ["v", "k" + x[1]]
            x[3].append(["E", rng.choice([k, k, ["?", k, ["c", "later"], ["c", "first"]], ["?", ["not", k], ["c", "1st"], k]])])
            x[1] += ", k" + x[1]
        elif x and x[0] == "E" and rng.random() < 0.05:
            x[1] = ["?", ["v", "b0"], x[1], ["c", "no <"]]
        for y in x:
            index_variables(rng, y)


def shrinks(plan):
    for i in range(len(plan["tasks"])):
        yield dict(plan, tasks=plan["tasks"][:i] + plan["tasks"][i + 1:])
    for i, todo in enumerate(plan["tasks"]):
        for j in range(len(todo) - 1, -1, -1):
            yield dict(plan, tasks=plan["tasks"][:i] + [todo[:j] + todo[j + 1:]] + plan["tasks"][i + 1:])
        for j, s in enumerate(todo):
            if s[0] == "render":
                for k in s[4]:
                    rest = {a: b for a, b in s[4].items() if a != k}
                    yield dict(plan, tasks=plan["tasks"][:i] + [
                        todo[:j] + [s[:4] + [rest] + s[5:]] + todo[j + 1:]] + plan["tasks"][i + 1:])
    if plan["net"]:
        yield dict(plan, net={})
        for m in plan["net"]:
            yield dict(plan, net={a: b for a, b in plan["net"].items() if a != m})
    if plan["choices"]:
        yield dict(plan, choices=[])
        yield dict(plan, choices=plan["choices"][:len(plan["choices"]) // 2])
    for k, v in (("bundle", None), ("minify", False), ("style", "eager"), ("globals", {}), ("frozen", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for f in rl.shrink_files(plan["files"]):
        yield dict(plan, files=f)


class Obj(tmpl.ModelObj):
    def __init__(self, w, v):
        self.w, self.v = w, v

    def convert(self):
        if self.v[0] == "throws":
            raise tmpl.Boom(("throws", id(self)))
        self.w.log(["conv", self.v[2]])
        return tmpl.Raw(self.v[1]) if self.v[0] == "html" else self.v[1]

    def raw(self):
        return str(self.convert())


class Bound(tmpl.ModelObj):
    def __init__(self, w, ctx):
        self.w, self.ctx = w, ctx

    def convert(self):
        return tmpl.Raw(self.w.output(self.ctx))

    def raw(self):
        return str(self.convert())


class World(object):
    def __init__(self, env):
        self.env, self.sim, self.plan = env, env.sim, env.plan
        plan = self.plan
        self.globs = {k: self.decode(v) for k, v in plan["globals"].items()}
        self.model = jstmpl.Model(plan["files"], plan["env"], self.globs, self.on_probe)
        self.bound = {}
        self.ctxs = [{k: self.decode(v) for k, v in c.items()} for c in plan["ctxs"]]
        self.frames = []
        self.expect = []
        self.steps = {}
        for todo in plan["tasks"]:
            self.index(todo)

    def index(self, todo):
        for s in todo:
            if s[0] == "render":
                for a in s[4].values():
                    self.index(a.get("steps", ()))

    # -- the model -------------------------------------------------------------
    def decode(self, v):
        k = v[0]
        if k == "undef":
            return jstmpl.UNDEF
        if k == "l":
            return [self.decode(x) for x in v[1]]
        if k == "rep":
            return ["r"] * v[1]
        if k in ("html", "str", "throws"):
            return Obj(self, v)
        if k == "h":
            return self.bound.get(v[1], jstmpl.UNDEF)
        return v[1]

    def log(self, e):
        if self.frames:
            self.frames[-1]["log"].append(e)

    def on_probe(self, k, v):
        if not self.frames:
            return v
        f = self.frames[-1]
        self.log(["p", k])
        n = f["count"][k] = f["count"].get(k, 0) + 1
        a = f["nest"].get(str(k))
        if a and a["at"] == n - 1:
            if "throw" in a:
                self.sim.fault("throw")
                raise tmpl.Boom(("thrown", k))
            for s in a["steps"]:
                self.step(s)
        return v

    def output(self, ctx):
        m = self.model
        stack, m.stack = m.stack, []
        try:
            return str(m.call(ctx["__main__"], []))
        finally:
            m.stack = stack

    def step(self, s):
        if s[0] == "bind":
            ctx = dict(self.ctxs[s[3]])
            self.expect.append(["bind", s[1]])
            m = self.model
            m.bind(s[2], ctx)
            self.bound[s[1]] = Bound(self, ctx)
        elif s[0] == "set":
            self.expect.append(["set", s[1]])
            self.ctxs[s[2]][s[3]] = self.decode(s[4])
        elif s[0] == "render":
            self.expect.append(["start", s[1]])
            self.render(s)

    def render(self, s):
        b = self.bound.get(s[2])
        if b is None:
            return
        if self.frames:
            self.sim.probe("nested")
            self.env.nontrivial = True
        f = {"log": [], "count": {}, "nest": s[4]}
        depth = len(self.frames)
        self.frames.append(f)
        in_raw = self.model.in_raw
        try:
            result = ["ok", self.output(b.ctx)]
        except tmpl.Boom as e:
            if e.key != "passed on" and e.key[0] not in ("throws", "thrown"):
                # only a minimised plan gets here: it calls what it no longer
                # defines, and what that throws is not the template's promise
                raise core.HarnessError("the plan makes no sense: %r" % (e.key,))
            self.env.nontrivial = True
            result = ["thrown"]
        self.model.in_raw = in_raw
        del self.frames[depth:]
        self.expect.append(["render", s[1], result, f["log"]])
        if result == ["thrown"] and depth and s[5] == "pass":
            raise tmpl.Boom("passed on")

    # -- the real thing ----------------------------------------------------------
    def compile(self):
        from tonnikala.loader import JSLoader

        loader = JSLoader(minify=self.plan["minify"])
        out = {}
        for n, f in self.plan["files"].items():
            src = jstmpl.source(f)
            try:
                out[n] = loader.load_string(src, n)
            except BaseException as e:
                raise Violation("compile", "%s does not compile: %r\n%s" % (n, e, src))
        with boot.real.open(os.path.join(boot.REPO, "tonnikala", "runtime", "javascript.js"), encoding="utf-8") as f:
            out[RUNTIME] = f.read()
        return out

    def node(self, modules):
        plan = self.plan
        data = json.dumps({
            "modules": modules, "ctxs": plan["ctxs"], "globals": plan["globals"], "tasks": plan["tasks"],
            "net": plan["net"], "style": plan["style"], "frozen": plan["frozen"], "host": plan["host"],
            "bundle": plan["bundle"], "choices": plan["choices"]}).encode()
        return run_node("loader.js", data)

    def run(self):
        plan, sim = self.plan, self.sim
        sim.steps += 1
        modules = self.compile()
        got = self.node(modules)
        sim.trace.update(json.dumps(got, sort_keys=True).encode())
        sim.inter.update(json.dumps([h[:2] for h in got["history"]]).encode())
        sim.steps += got["turns"]
        sim.nswitch += got["choices"]
        for k, n in got["stats"].items():
            if n:
                sim.fault("script_" + k, n)
                self.env.nontrivial = True
        self.env.measure = "%s %d %s" % (plan["style"], len(plan["tasks"]), sorted(plan["net"].items()))
        # what the clients did, in the order in which they did it
        by_id, depth = {}, 0
        for todo in plan["tasks"]:
            for s in todo:
                if s[0] != "need":
                    by_id[self.key(s)] = s
        history = got["history"]
        for i, h in enumerate(history):
            if h[0] in ("script-error", "no-define", "factory-error", "bind-error", "require-error", "endless", "stuck"):
                raise Violation(h[0], "%r\nhistory: %s" % (h, json.dumps(history[max(0, i - 6):i])[:1500]))
        i = 0
        while i < len(history):
            h = history[i]
            s = by_id.get(self.key(h))
            if s is None:
                raise Violation("history", "unexpected %r" % (h,))
            del self.expect[:]
            self.model.stack = []
            self.step(s)
            for want in self.expect:
                if i >= len(history) or history[i] != want:
                    self.compare(history[i] if i < len(history) else None, want)
                i += 1
            if len(self.bound) > 1:
                self.env.nontrivial = True
        if not history:
            self.env.nontrivial = False

    @staticmethod
    def key(s):
        if s[0] in ("render", "start"):
            return ("render", s[1])
        return tuple(s[:2])

    def compare(self, got, want):
        if got is not None and got[:2] == want[:2] and got[0] == "render":
            if got[2] != want[2]:
                raise Violation("wrong-output" if got[2][0] == "ok" and want[2][0] == "ok" else "wrong-outcome",
                                "render %s:\n got  %r\n want %r" % (got[1], got[2], want[2]))
            raise Violation("wrong-evaluations", "render %s evaluated %r instead of %r" % (got[1], got[3], want[3]))
        raise Violation("history", "got %r instead of %r" % (got, want))


def run_node(script, data):
    """Run a simulation script in a V8 of its own."""
    exe = "/usr/bin/env"
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "js", script)
    ri, wi = os.pipe()
    ro, wo = os.pipe()
    pid = os.posix_spawn(exe, ["env", "node", "--stack-size=700", path], dict(os.environ), file_actions=[
        (os.POSIX_SPAWN_DUP2, ri, 0), (os.POSIX_SPAWN_DUP2, wo, 1),
        (os.POSIX_SPAWN_CLOSE, ri), (os.POSIX_SPAWN_CLOSE, wi), (os.POSIX_SPAWN_CLOSE, ro), (os.POSIX_SPAWN_CLOSE, wo)])
    os.close(ri)
    os.close(wo)
    off = 0
    while off < len(data):      # (the script reads all of it before it writes)
        off += os.write(wi, data[off:off + 65536])
    os.close(wi)
    out = []
    while True:
        b = os.read(ro, 1 << 16)
        if not b:
            break
        out.append(b)
    os.close(ro)
    _, status = os.waitpid(pid, 0)
    if status:
        raise core.HarnessError("node ended with status %d" % status)
    return json.loads(b"".join(out))


def execute(env):
    World(env).run()
