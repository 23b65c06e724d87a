"""C11: the C and the Python output buffer behave identically."""
import hashlib
import importlib.util
import json
import os
import sys

from .. import boot, core, renderlib as rl
from ..core import Violation

ID = "C11"
RUNS = {"quick": 12000, "thorough": 2000000}
BUFFERS = ("c",)
REAL = ["tonnikala/runtime/_buffer.c (compiled from the working tree)", "tonnikala/runtime/python.py", "markupsafe"]
STUBS = ["thread scheduling (switches inside conversions)", "values with failing or re-entrant conversions"]
RULE = ("histories of 5-40 operations on 2-4 buffers from 1-3 interleaved tasks, run once with the C and once with the "
        "Python buffer under the same schedule: appends of texts, buffers (also to themselves), numbers, objects; "
        "attributes; attribute mappings; joins; conversions that raise, return no text, run further operations on "
        "the same buffers, or hand over to another task; compared: the outcome of every operation (value or type of "
        "exception) and the contents of every buffer after each; non-trivial: a conversion failed, re-entered or "
        "switched tasks")
LEVEL = "exploration"


def setup():
    global C, PY
    import tonnikala.runtime.python as rp

    C = rp
    path = os.path.join(boot.REPO, "tonnikala", "runtime", "python.py")
    keep = sys.modules.get("tonnikala.runtime._buffer")
    sys.modules["tonnikala.runtime._buffer"] = None
    try:
        spec = importlib.util.spec_from_file_location("tonnikala.runtime._tksim_pure", path)
        PY = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(PY)
    finally:
        sys.modules["tonnikala.runtime._buffer"] = keep
    if PY.Buffer is C.Buffer:
        raise core.HarnessError("the Python buffer cannot be told from the C buffer")


def draw_sched(rng):
    return {"policy": "fixed"}


TEXTS = ["", "x", "<b>&", "é", "☃☃", "\U0001f600", "\udc80", "\x00", "a" * 300, "\"'"]


def draw_arg(rng, nb, nt, depth):
    r = rng.random()
    if r < 0.25:
        return ["s", rng.choice(TEXTS)]
    if r < 0.33:
        return ["m", rng.choice(TEXTS)]
    if r < 0.5:
        return ["b", rng.randrange(nb)]
    if r < 0.58:
        return ["j", rng.choice([None, True, False, 0, 1, 2.5, 10 ** 30, ["<"], {"a": "<"}])]
    if r < 0.6:
        return ["by", rng.choice(["<x>", ""])]
    acts = []
    if depth < 3 and rng.random() < 0.45:
        acts = [draw_op(rng, nb, nt, depth + 1) for _ in range(rng.randint(1, 3))]
    exc = None
    if rng.random() < 0.35:
        exc = rng.choice(sorted(rl.EXC))
    return ["o", rng.choice(["str", "str", "str", "sub", "html", "html", "both", "nonstr", "htmlnonstr", "htmlattr",
                             "htmlsub", "num", "strsub"]), rng.choice(TEXTS), acts, exc]


def draw_op(rng, nb, nt, depth=0):
    b = rng.randrange(nb)
    r = rng.random()
    if depth and r < 0.15:
        return {"op": "switch", "to": rng.randrange(nt)}
    if r < 0.5:
        n = rng.choice([0, 1, 1, 2, 3, 4, 6, 40 if depth == 0 else 2])
        return {"op": "call", "b": b, "args": [draw_arg(rng, nb, nt, depth) for _ in range(n)]}
    if r < 0.72:
        return {"op": "attr", "b": b, "args": [
            ["s", rng.choice(["class", "checked", "x"])] if rng.random() < 0.6 else draw_arg(rng, nb, nt, depth),
            draw_arg(rng, nb, nt, depth)]}
    if r < 0.82:
        return {"op": rng.choice(["join", "str", "html", "format", "escape", "bool", "bytes", "join1", "attr1", "attr3",
                                  "kw", "attrkw"]), "b": b}
    if r < 0.92:
        how = rng.choice(["dict", "list", "iter", "proxy", "bad", "none", "triple", "failing"])
        return {"op": "attrs", "b": b, "how": how, "args": [
            ["a%d" % i, draw_arg(rng, nb, nt, depth)] for i in range(rng.randint(0, 4))]}
    if r < 0.96:
        return {"op": "new", "b": b}
    if r < 0.966 and depth == 0:
        return {"op": "bulk", "b": b, "n": rng.choice([100, 255, 1000, 2500]), "star": rng.random() < 0.5,
                "value": rng.choice([["s", "x"], ["m", "<"], ["s", "&"], ["j", 7], ["s", ""], ["b", rng.randrange(nb)],
                                     ["o", "str", "o<", [], None], ["o", "html", "<i>", [], None]])}
    if r < 0.97 and depth == 0:
        return {"op": "call", "b": b, "args": [[rng.choice("sm"), rng.choice(["ab<", "é", "☃&", "y"]) *
                                               rng.choice([5000, 33000])]]}
    return {"op": "gc"}


def generate(rng, tier):
    nb = rng.randint(2, 4)
    nt = rng.choice([1, 1, 2, 3])
    return {"nb": nb, "tasks": [[draw_op(rng, nb, nt) for _ in range(rng.randint(4, 20))] for _ in range(nt)]}


def shrinks(plan):
    for t in rl.drop_each(plan["tasks"]):
        if t:
            yield dict(plan, tasks=t)
    for i, ops in enumerate(plan["tasks"]):
        for c in shrink_list(ops):
            yield dict(plan, tasks=plan["tasks"][:i] + [c] + plan["tasks"][i + 1:])


def shrink_list(ops):
    for c in rl.drop_each(ops):
        yield c
    for i, o in enumerate(ops):
        for o2 in shrink_op(o):
            yield ops[:i] + [o2] + ops[i + 1:]


def shrink_op(o):
    a = o.get("args")
    if not a:
        return
    if o["op"] == "call":
        for c in rl.drop_each(a):
            yield dict(o, args=c)
    for i, x in enumerate(a):
        v = x[1] if o["op"] == "attrs" else x
        if v[0] == "o":
            cands = [v[:3] + [c] + v[4:] for c in shrink_list(v[3])]
            if v[4]:
                cands.append(v[:4] + [None])
            for c in cands:
                y = [x[0], c] if o["op"] == "attrs" else c
                yield dict(o, args=a[:i] + [y] + a[i + 1:])


class Half(object):
    """The history on one implementation."""

    def __init__(self, env, mod):
        self.env, self.sim, self.mod = env, env.sim, mod
        self.bufs = [mod.Buffer() for _ in range(env.plan["nb"])]
        self.all = list(self.bufs)
        self.log = []
        self.depth = 0

    def value(self, a):
        from markupsafe import Markup

        k = a[0]
        if k == "s":
            return a[1]
        if k == "m":
            return Markup(a[1])
        if k == "b":
            b = self.bufs[a[1]]
            # (appending to themselves, buffers grow exponentially)
            return "big" if len(b.join()) > 3000 else b
        if k == "j":
            return a[1]
        if k == "by":
            return a[1].encode()
        kind, text, acts, exc = a[1:]

        def conv():
            n = len(self.log)
            self.log.append("conv")
            if acts and self.depth < 6 and len(self.log) < 300:
                self.depth += 1
                self.sim.probe("reentered")
                self.env.nontrivial = True
                try:
                    for o in acts:
                        self.do(o)
                finally:
                    self.depth -= 1
            self.log[n] = ["conv", len(self.log) - n]
            if exc:
                self.sim.fault("raise_conversion")
                self.env.nontrivial = True
                raise rl.EXC[exc]("boom")

        class Base(object):
            pass

        if kind == "str":
            class V(Base):
                def __str__(s):
                    conv()
                    return text
        elif kind == "strsub":
            class V(Base):
                def __str__(s):
                    conv()
                    return Markup(text)
        elif kind == "sub":
            class V(str):
                def __str__(s):
                    conv()
                    return text + "!"
            return V(text)
        elif kind == "html":
            class V(Base):
                def __html__(s):
                    conv()
                    return text
        elif kind == "htmlsub":
            class V(str):
                def __html__(s):
                    conv()
                    return "H" + text
            return V(text)
        elif kind == "both":
            class V(Base):
                def __html__(s):
                    conv()
                    return "<h>" + text

                def __str__(s):
                    conv()
                    return "<s>" + text
        elif kind == "nonstr":
            class V(Base):
                def __str__(s):
                    conv()
                    return 5
        elif kind == "htmlnonstr":
            class V(Base):
                def __html__(s):
                    conv()
                    return 5
        elif kind == "htmlattr":
            class V(Base):
                @property
                def __html__(s):
                    conv()
                    raise AttributeError("no html")
        else:
            class V(int):
                def __str__(s):
                    conv()
                    return text
            return V(7)
        if "__str__" not in V.__dict__:
            V.__repr__ = lambda s: "<" + kind + ">"
        return V()

    def do(self, o):
        i = len(self.log)
        self.log.append(None)
        out = None
        try:
            out = ["ok", self.run(o)]
        except (core.HarnessError, core.SimAbort, Violation):
            raise
        except BaseException as e:
            out = ["raised", type(e).__name__]
        self.log[i] = [o["op"], out, len(self.log) - i, [self.show(b.join()) for b in self.bufs]]

    @staticmethod
    def show(t):
        return [type(t).__name__, t if len(t) < 400 else hashlib.md5(t.encode("utf-8", "surrogatepass")).hexdigest()]

    def ret(self, v):
        if v is None or isinstance(v, (bool, int)):
            return v
        if isinstance(v, str):
            return self.show(v)
        for i, b in enumerate(self.all):
            if v is b:
                return "buffer %d" % i
        if type(v) is self.mod.Buffer:
            return ["new buffer", self.show(v.join())]
        return type(v).__name__

    def run(self, o):
        k = o["op"]
        if k == "switch":
            self.sim.probe("switched_in_conversion")
            self.env.nontrivial = True
            self.sim.switch(o["to"])
            return None
        if k == "gc":
            import gc
            gc.collect()
            return None
        if k == "new":
            self.bufs[o["b"]] = self.mod.Buffer()
            self.all.append(self.bufs[o["b"]])
            return None
        b = self.bufs[o["b"]]
        if k == "call":
            return self.ret(b(*[self.value(a) for a in o["args"]]))
        if k == "bulk":
            self.sim.probe("bulk")
            small = o["value"][0] != "b" or o["value"][1] != o["b"] and len(self.bufs[o["value"][1]].join()) < 40
            if o["star"] and small:
                return self.ret(b(*[self.value(o["value"]) for _ in range(o["n"])]))
            for _ in range(o["n"]):
                r = b(self.value(o["value"]) if small else "big")
            return self.ret(r)
        if k == "attr":
            return self.ret(b.output_boolean_attr(*[self.value(a) for a in o["args"]]))
        if k == "attrs":
            pairs = [(n, self.value(a)) for n, a in o["args"]]
            how = o["how"]
            if how == "dict":
                v = dict(pairs)
            elif how == "iter":
                v = iter(pairs)
            elif how == "proxy":
                import types
                v = types.MappingProxyType(dict(pairs))
            elif how == "bad":
                v = 5
            elif how == "none":
                v = None
            elif how == "triple":
                v = [p + (1,) for p in pairs]
            elif how == "failing":
                v = self.failing(pairs)
            else:
                v = pairs
            r = self.mod.output_attrs(v)
            b(r)
            return self.ret(r)
        if k == "join":
            return self.ret(b.join())
        if k == "join1":
            return self.ret(b.join(","))
        if k == "str":
            return self.ret(str(b))
        if k == "html":
            return self.ret(b.__html__())
        if k == "format":
            return self.ret("%s" % b)
        if k == "escape":
            return self.ret(self.mod.escape(b))
        if k == "bool":
            return bool(b)
        if k == "bytes":
            return self.ret(bytes(str(b), "utf-8"))
        if k == "attr1":
            return self.ret(b.output_boolean_attr("x"))
        if k == "attr3":
            return self.ret(b.output_boolean_attr("x", "y", "z"))
        if k == "kw":
            return self.ret(b("x", sep="y"))
        if k == "attrkw":
            return self.ret(b.output_boolean_attr("x", "y", z=1))
        raise core.HarnessError(k)

    def failing(self, pairs):
        for p in pairs:
            yield p
        raise ValueError("the mapping ends in an error")

    def go(self):
        for i, ops in enumerate(self.env.plan["tasks"]):
            def body(ops=ops):
                for o in ops:
                    self.do(o)
            self.sim.spawn("task%d" % i, body)
        self.sim.run()
        return self.log, [self.show(b.join()) for b in self.all]


def execute(env):
    env.sim.tasks = []
    a = Half(env, C)
    la, fa = a.go()
    b = Half(env, PY)
    lb, fb = b.go()
    env.measure = hashlib.blake2b(repr(la).encode("utf-8", "surrogatepass"), digest_size=6).hexdigest()
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else None
        y = lb[i] if i < len(lb) else None
        if x != y:
            raise Violation("buffers-differ", "event %d: the C buffer: %r, the Python buffer: %r" % (i, x, y))
    if fa != fb:
        raise Violation("buffers-differ", "final contents: C %r, Python %r" % (fa, fb))
    env.sim.log("outcome", la)
