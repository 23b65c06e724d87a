"""Workload pieces shared by the render properties."""
import collections
import collections.abc
import dataclasses
import os
import re
import types

from . import boot, core, tmpl
from .core import Violation


class Planned(Exception):
    """An exception a plan told an expression to raise."""


class PlannedBase(BaseException):
    pass


class Empty(Exception):
    """One that is false, like a collection of errors."""

    def __len__(self):
        return 0


@dataclasses.dataclass
class Data(Exception):
    """One that equals others, and has no hash."""
    text: str


def template_error(m):
    from tonnikala.runtime.exceptions import TemplateSyntaxError

    return TemplateSyntaxError(m, lineno=2, source="one\ntwo", filename="else.tk")


# what the interpreter and libraries say
MESSAGES = {
    "KeyError": ["s0", "gettext", "__main__"],
    "AttributeError": ["'NoneType' object has no attribute 's0'", "Imported template 'lib' has no attribute 'x'", "__html__"],
    "RuntimeError": ["dictionary changed size during iteration", "generator raised StopIteration", "no context"],
    "RecursionError": ["maximum recursion depth exceeded", "maximum recursion depth exceeded while calling a Python object"],
    "TypeError": ["'NoneType' object is not callable", "t() takes 1 positional argument but 2 were given",
                  "__str__ returned non-string (type bytes)", "not all arguments converted during string formatting"],
    "NameError": ["name 's0' is not defined", "name 'gettext' is not defined", "name '__TK__output' is not defined"],
    "UnboundLocalError": ["cannot access local variable 's0' where it is not associated with a value"],
    "OSError": ["File not found: page.html", "No such file or directory"],
    "SyntaxError": ["invalid syntax"],
    "ImportError": ["No module named 'x'"],
}


EXC = {
    "Planned": Planned,
    "Empty": Empty,
    "Data": Data,
    "ValueError": ValueError,
    "KeyError": KeyError,
    "ZeroDivisionError": ZeroDivisionError,
    "StopIteration": StopIteration,
    "UnicodeDecodeError": lambda m: UnicodeDecodeError("utf-8", b"\xff", 0, 1, m),
    "AttributeError": AttributeError,
    "RuntimeError": RuntimeError,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "TypeError": TypeError,
    "OSError": lambda m: OSError(5, m),
    "AssertionError": AssertionError,
    "NameError": NameError,
    "UnboundLocalError": UnboundLocalError,
    "IndexError": IndexError,
    "ImportError": ImportError,
    "NotImplementedError": NotImplementedError,
    "SyntaxError": lambda m: SyntaxError(m, ("else.tk", 3, 2, "a b", 3, 4)),
    "TemplateSyntaxError": template_error,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "GeneratorExit": GeneratorExit,
    "PlannedBase": PlannedBase,
}
ORDINARY = [k for k in EXC if k not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit", "PlannedBase")]


def write_files(root, files, mtime=None, sub=""):
    d = os.path.join(root, sub) if sub else root
    os.makedirs(d, exist_ok=True)
    for name, f in files.items():
        path = os.path.join(d, name)
        with boot.real.open(path, "w", encoding="utf-8", newline="") as fo:
            fo.write(tmpl.source(f))
        if mtime is not None:
            os.utime(path, (mtime, mtime))
    return d


class Obj(object):
    """A context value whose conversion is logged."""

    def __init__(self, spec, probe):
        self.spec, self.probe = spec, probe

    def conv(self):
        self.probe.note("c:" + self.spec[3])
        return self.spec[2]

    def __str__(self):
        return self.conv()


class HtmlObj(Obj):
    def __html__(self):
        return self.conv()


def make_obj(spec, probe):
    return (HtmlObj if spec[1] == "html" else Obj)(spec, probe)


class MObj(tmpl.ModelObj):
    def __init__(self, spec, probe):
        self.spec, self.probe = spec, probe

    def convert(self):
        self.probe.log.append("c:" + self.spec[3])
        return tmpl.Raw(self.spec[2]) if self.spec[1] == "html" else self.spec[2]


class BadObj(object):
    """Raises when converted to text."""

    def __init__(self, raiser, key):
        self.raiser = raiser

    def __str__(self):
        self.raiser()


class BadHtml(BadObj):
    def __html__(self):
        self.raiser()


class LateObj(object):
    """A value whose conversion to text does something first."""

    def __init__(self, text, first):
        self.text, self.first = text, first

    def __str__(self):
        self.first()
        return self.text


class MLate(tmpl.ModelObj):
    def __init__(self, text, first):
        self.text, self.first = text, first

    def convert(self):
        self.first()
        return self.text


def pairs(v):
    return list(v.items() if isinstance(v, dict) else v or ())


class BadMapping(collections.abc.Mapping):
    """Raises when its items are asked for, or after some."""

    def __init__(self, values, after, boom):
        self.values, self.after, self.boom = dict(values), after, boom

    def __getitem__(self, k):
        return self.values[k]

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values) + 1

    def items(self):
        if not self.after or not self.values:
            self.boom()
        return World.real_iter(list(self.values.items()), self.after, self.boom)


def bad_items(a, v, boom):
    v = pairs(v)
    return BadMapping(v, a["after"], boom) if a["mapping"] else World.real_iter(v, a["after"], boom)


class MBad(tmpl.ModelObj):
    def __init__(self, key):
        self.key = key

    def convert(self):
        raise tmpl.Boom(self.key)


class Probe(object):
    """The ``t`` of one render: logs, yields, obeys the plan."""

    def __init__(self, actions=None, on_action=None, trace=True):
        self.log = []
        self.occ = {}
        self.actions = actions or {}
        self.on_action = on_action
        self.trace = trace
        self.raised = None

    def note(self, x):
        self.log.append(x)
        s = core.ACTIVE
        if s is not None:
            s.point("N")

    def __call__(self, k, v=None):
        self.log.append(k)
        s = core.ACTIVE
        if s is not None:
            if self.trace:
                s.trace.update(b"p%d" % k)
            s.point("P")
        n = self.occ[k] = self.occ.get(k, 0) + 1
        a = self.actions.get("%d:%d" % (k, n))
        if a is not None:
            r = self.on_action(a, k, n, v)
            if r is not NotImplemented:
                return r
        return v


LARGE = 6000       # evaluations of one render


class ModelProbe(object):
    def __init__(self, actions=None, on_action=None):
        self.log = []
        self.occ = {}
        self.actions = actions or {}
        self.on_action = on_action

    def __call__(self, k, v=None):
        self.log.append(k)
        n = self.occ[k] = self.occ.get(k, 0) + 1
        a = self.actions.get("%d:%d" % (k, n))
        if a is not None and self.on_action is not None:
            r = self.on_action(a, k, n, v)
            if r is not NotImplemented:
                return r
        return v


def brief(a, b, width=160):
    """Where two texts first differ."""
    if a == b:
        return "equal"
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    lo = max(0, i - 30)
    return "at %d: expected %r, got %r" % (i, b[lo:lo + width], a[lo:lo + width])


def check_same(got, want, what, cls="wrong-output"):
    if got != want:
        raise Violation(cls, "%s: %s" % (what, brief(str(got), str(want))))


class Missing(dict):
    """A mapping that has a value for everything."""

    def __missing__(self, key):
        return "missing <%s>" % key


def mapping(ctx, kind):
    """The context as a caller may pass it."""
    if kind == "frozen":
        return types.MappingProxyType(ctx)
    if kind == "full":
        from tonnikala.loader import make_template_context

        return make_template_context(ctx)
    if kind == "chain":
        keys = list(ctx)
        return collections.ChainMap({k: ctx[k] for k in keys[1::2]}, {k: ctx[k] for k in keys[::2]})
    if kind == "user":
        return collections.UserDict(ctx)
    if kind == "missing":
        return Missing(ctx)
    return ctx


# ------------------------------------------------------------- operations
#
# An operation (JSON) is one render:
#   {"tmpl", "ctx", "func", "via": render|buffer|late, "capture": [names],
#    "as": kind of mapping, "string": bool, "nest": {"k:n": action}, "interrupt": n}
# An action happens at the n-th evaluation of probe k:
#   {"op": operation, "catch": bool}                  a render inside the expression
#   ... "late": True                                  ... when its value is converted to text
#   {"exc": name, "mode": call|conv|html|iter, ...}   a failure
#   {"set": [name, value]}                            (property specific)


def all_funcs(files, name):
    f = files[name]
    funcs = []
    blocks = {}
    m = tmpl.Model(files)
    while True:
        funcs += [d[1] for d in f.get("defs", ()) if not d[2]]
        m.collect(f["body"], blocks)
        if not f.get("ext"):
            break
        f = files[f["ext"]]
    return sorted(set(funcs) | set(blocks))


def draw_op(rng, files, env, tag, nest_p=0.45, fail_p=0.0, depth=0, objs=0.0, page=None, fails=None):
    name = page or rng.choice(sorted(files))
    op = {"tmpl": name, "ctx": tmpl.draw_context(rng, env, tag, objs), "func": "__main__",
          "via": rng.choice(["render", "render", "render", "buffer", "late"])}
    if rng.random() < 0.2:
        funcs = all_funcs(files, name)
        if funcs:
            op["func"] = rng.choice(funcs)
    if rng.random() < 0.3:
        op["capture"] = [d for d in all_funcs(files, name) if rng.random() < 0.3]
    op["as"] = rng.choice(["dict"] * 5 + ["frozen", "frozen", "full", "full", "chain", "user", "missing"])
    op["handling"] = rng.random() < 0.2
    op["string"] = rng.random() < 0.1
    want_nest = depth < 2 and rng.random() < nest_p
    want_fail = rng.random() < fail_p
    if want_nest or want_fail:
        op["nest"] = {}
        try:
            occ = occurrences(files, name, op["ctx"], op["func"])
        except tmpl.Boom:
            occ = []
        kinds = probe_kinds(files)
        if occ and want_nest:
            for _ in range(rng.randint(1, 2)):
                k, n = rng.choice(occ)
                op["nest"]["%d:%d" % (k, n)] = {
                    "op": draw_op(rng, files, env, tag + "n", nest_p, fail_p, depth + 1, objs, fails=fails),
                    "catch": rng.random() < 0.6 or kinds.get(k) == "gen"}
                if kinds.get(k) == "text" and not kinds.get("gj") and not kinds.get("+") and rng.random() < 0.35:
                    op["nest"]["%d:%d" % (k, n)]["late"] = True
        if occ and want_fail:
            if rng.random() < 0.6:
                # rare constructs as often as frequent ones
                sites = probe_sites(files)
                by = {}
                for k, n in occ:
                    by.setdefault(sites.get(k, ""), []).append((k, n))
                occ = by[rng.choice(sorted(by))]
            k, n = rng.choice(occ)
            op["nest"]["%d:%d" % (k, n)] = draw_failure(rng, kinds.get(k), tag, fails, kinds.get("gj"))
    return op


def draw_failure(rng, kind, tag, fails=None, generators=False):
    names = sorted(EXC) if fails is None else fails
    a = {"exc": rng.choice(names), "msg": "boom-%s" % tag, "mode": "call",
         "cause": rng.random() < 0.2, "context": rng.random() < 0.2}
    if a["exc"] in MESSAGES and rng.random() < 0.5:
        a["msg"] = rng.choice(MESSAGES[a["exc"]])
    if kind == "list" and rng.random() < 0.5:
        a["mode"] = "iter"
        a["after"] = rng.randint(0, 2)
        if a["exc"] == "StopIteration":
            a["exc"] = "ValueError"
    elif kind == "attrs" and rng.random() < 0.5:
        a["mode"] = "items"
        a["mapping"] = rng.random() < 0.5
        a["after"] = rng.randint(0, 2)
        if a["exc"] == "StopIteration":
            a["exc"] = "ValueError"
    elif kind == "gen" and a["exc"] == "StopIteration":
        a["exc"] = "ValueError"     # (Python makes a RuntimeError of it)
    elif kind == "text" and rng.random() < 0.45:
        a["mode"] = rng.choice(["conv", "html"])
        if generators and a["exc"] == "StopIteration":
            # raised while a generator of the template converts the value,
            # Python itself makes a RuntimeError of it
            a["exc"] = "ValueError"
    return a


def probe_kinds(files):
    """probe id -> 'text' | 'list' | 'other' by where its value goes."""
    out = {}

    def expr(e, kind):
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if k == "p":
            out[e[1]] = kind
            expr(e[2], kind)
        elif k in ("+", "not"):
            out[k] = True
            for x in e[1:]:
                expr(x, "other")
        elif k == "call":
            for x in e[2]:
                expr(x, "text")
        elif k == "at":
            for x in e[3]:
                expr(x, "text")
        elif k == "L":
            for x in e[1]:
                expr(x, "text")
        elif k == "lit":
            expr(e[1], "text")
        elif k == "dict":
            for _, x in e[1]:
                expr(x, "text")
        elif k == "dform":
            expr(e[2], "attrs" if e[1] in (4, 5) and kind == "attrs" else "other")
        elif k == "dgen":
            out[e[2][1]] = "gen"
            expr(e[3], "other")
        elif k == "fs":
            for x in e[1]:
                expr(x, "text")
        elif k == "bi":
            expr(e[2], "text" if e[1] == "str" else "other")
        elif k == "same":
            expr(e[2], kind)
        elif k == "ife":
            expr(e[1], "other")
            expr(e[2], kind)
            expr(e[3], kind)
        elif k in ("and", "or"):
            expr(e[1], kind)
            expr(e[2], kind)
        elif k == "lam":
            expr(e[2], kind)
            expr(e[3], "text")
        elif k == "lc":
            expr(e[1], "text" if kind == "list" else "other")
            expr(e[3], "list")
        elif k == "gj":
            out["gj"] = True
            expr(e[4], "list")
        elif k == "kw":
            for _, x in e[2]:
                expr(x, "text")

    def nodes(ns):
        for n in ns:
            k = n[0]
            if k == "E":
                expr(n[1], "text")
            elif k == "py":
                expr(n[2], "text")
            elif k == "raw":
                nodes(n[2])
            elif k == "if":
                expr(n[1], "other")
                nodes(n[2])
            elif k == "for":
                expr(n[2], "list")
                nodes(n[3])
            elif k == "with":
                for _, e in n[1]:
                    expr(e, "text")
                nodes(n[2])
            elif k == "def":
                for e in (n[4] if len(n) > 4 else {}).values():
                    expr(e, "text")
                nodes(n[3])
            elif k == "block":
                nodes(n[2])
            elif k == "el":
                for _, v in n[2]:
                    if v[0] == "x":
                        expr(v[1], "text")
                    elif v[0] == "m":
                        for p in v[1]:
                            expr(p, "text")
                d = n[3]
                for x in ("if", "strip", "attrs"):
                    if x in d:
                        expr(d[x], "attrs" if x == "attrs" else "other")
                for x in ("content", "replace"):
                    if x in d:
                        expr(d[x], "text")
                if "for" in d:
                    expr(d["for"][1], "list")
                for _, e in d.get("with", ()):
                    expr(e, "text")
                nodes(n[4])

    for f in files.values():
        nodes(f.get("defs", ()))
        nodes(f["body"])
    return out


def probe_sites(files):
    """probe id -> the construct its expression is part of."""
    out = {}

    def expr(e, site):
        if isinstance(e, dict):
            e = list(e.values())
        if isinstance(e, (list, tuple)):
            if len(e) == 3 and e[0] == "p" and isinstance(e[1], int):
                out[e[1]] = site
            for x in e:
                expr(x, site)

    def nodes(ns):
        for n in ns:
            k = n[0]
            if k == "el":
                for a in n[2]:
                    expr(a[1], "attr-" + a[1][0])
                for d, v in n[3].items():
                    expr(v, d)
                nodes(n[4])
            elif k in ("def", "block", "raw", "if", "for", "with"):
                kids = {"for": 3}.get(k, 3 if k == "def" else 2)
                expr(n[1:kids], k)
                expr(n[4:], "default")
                nodes(n[kids])
            else:
                expr(n[1:], k)

    for f in files.values():
        nodes(f.get("defs", ()))
        nodes(f["body"])
    return out


def about(e):
    """All there is to know about an exception but its traceback."""
    return e.args, dict(vars(e)), str(e), e.__cause__, e.__context__, e.__suppress_context__


class Outcome(object):
    """What the model says about an operation."""

    def __init__(self):
        self.text = None
        self.log = None
        self.boom = None        # "k:n" of the action that fails, or None
        self.stack = None       # [(file, line)...] when it fails
        self.caps = {}


class World(object):
    """The real loader and the model of one run."""

    name = "render"

    def __init__(self, env, lines=False, check_log=True, **loader_kw):
        from tonnikala.loader import FileLoader, Loader

        self.env = env
        self.sim = env.sim
        self.files = env.plan["files"]
        self.dir = write_files(env.root, self.files)
        if any(f.get("tal") for f in self.files.values()):
            loader_kw["syntax"] = "chameleon"
        self.loader = FileLoader([self.dir], **loader_kw)
        self.StringLoader = lambda: Loader(**loader_kw)
        self.active = 0
        self.late = []
        self.strings = {}
        self.lines = tmpl.id_lines(self.files) if lines else None
        self.check_log = check_log
        self.check_text = True
        self.check_exc = True

    def new_obj(self, spec, probe):
        return make_obj(spec, probe)

    def new_mobj(self, spec, mprobe):
        return MObj(spec, mprobe)

    def norm(self, text, want):
        return text

    # -- what should happen ------------------------------------------------
    def model_ctx(self, op, mp):
        ctx = {k: tmpl.model_value(v, lambda s: self.new_mobj(s, mp)) for k, v in op["ctx"].items()}
        ctx["t"] = mp
        return ctx

    def new_model(self, op, mp):
        return tmpl.Model(self.files, mp)

    def model_action(self, a, k, n, v, mp):
        key = "%d:%d" % (k, n)
        if "op" in a:
            def inner():
                o = self.outcome(a["op"])
                if o.boom is not None and not a.get("catch"):
                    b = tmpl.Boom(key)
                    b.inner = o.stack
                    raise b

            if a.get("late") and type(v) is str and v:
                return MLate(v, inner)
            inner()
            return NotImplemented
        if a["mode"] == "call":
            raise tmpl.Boom(key)
        if a["mode"] == "iter":
            return self.model_iter(v, a["after"], key)
        if a["mode"] == "items":
            return self.model_iter(pairs(v), a["after"], key)
        if a["mode"] in ("conv", "html"):
            return MBad(key)
        raise core.HarnessError("action %r" % (a,))

    @staticmethod
    def model_iter(v, after, key):
        for x in v[:after]:
            yield x
        raise tmpl.Boom(key)

    def outcome(self, op):
        mp = ModelProbe(op.get("nest") or {})
        mp.on_action = lambda a, k, n, v: self.model_action(a, k, n, v, mp)
        m = self.new_model(op, mp)
        out = Outcome()
        full = self.model_ctx(op, mp)
        try:
            m.bind(op["tmpl"], full)
            m.stack = []
            if op["func"] not in full:
                raise core.HarnessError("no function %s" % op["func"])
            out.text = str(m.call(full[op["func"]], []))
        except tmpl.Boom as b:
            if not isinstance(b.key, str):
                raise core.HarnessError("model: %r" % (b,))     # (a shrunk plan that makes no sense)
            out.boom = b.key
            if self.lines is not None:
                # (while a template is bound, it has an entry, on no line in particular)
                out.stack = [(f, self.lines.get(e, 0) if e else None) for f, e in m.stack]
                out.stack += getattr(b, "inner", None) or []
        out.log = list(mp.log)
        self.bound(out)
        if op.get("capture"):
            mp2 = ModelProbe()
            c2 = self.model_ctx(op, mp2)
            m2 = self.new_model(op, mp2)
            m2.bind(op["tmpl"], c2)
            for name in op["capture"]:
                out.caps[name] = str(m2.call(c2[name], []))
        return out

    def bound(self, out):
        """Loops and calls that happen to multiply: a run ends before such a render."""
        if len(out.log) > LARGE or out.text is not None and len(out.text) > 20 * LARGE:
            self.sim.probe("too_large")
            self.sim.finish(None)

    # -- what happens --------------------------------------------------------
    def template(self, op):
        f = self.files[op["tmpl"]]
        if op.get("string") and not f.get("ext") and not f.get("imports"):
            t = self.strings.get(op["tmpl"])
            if t is None:
                t = self.strings[op["tmpl"]] = self.StringLoader().load_string(
                    tmpl.source(f), filename="<sim %s>" % op["tmpl"])
            return t
        return self.loader.load(op["tmpl"])

    def real_ctx(self, op, p):
        ctx = {k: tmpl.real_value(v, lambda s: self.new_obj(s, p)) for k, v in op["ctx"].items()}
        ctx["t"] = p
        return ctx

    def make_exc(self, a):
        e = EXC[a["exc"]](a["msg"])
        return e

    def real_action(self, a, k, n, v, p, where):
        if "op" in a:
            def inner():
                self.sim.probe("nested_render")
                self.env.nontrivial = True
                exc = self.perform(a["op"], where + ">%d" % k)
                if exc is None:
                    return
                if a.get("catch"):
                    self.sim.probe("nested_failure_caught")
                    return
                self.sim.probe("nested_failure_passed_on")
                p.raised = exc
                try:
                    raise exc
                finally:    # raising sets the context
                    p.planned = about(exc)

            if a.get("late") and type(v) is str and v:
                self.sim.probe("nested_in_conversion")
                return LateObj(v, inner)
            inner()
            return NotImplemented
        self.sim.fault("raise_%s" % a["mode"])

        def boom():
            e = self.make_exc(a)
            p.raised = e
            if a.get("cause"):
                e.__cause__ = LookupError("the cause")
            try:
                if a.get("context"):
                    try:
                        raise LookupError("the context")
                    except LookupError:
                        raise e
                raise e
            finally:    # raising sets the context
                p.planned = about(e)

        if a["mode"] == "call":
            boom()
        if a["mode"] == "iter":
            return self.real_iter(v, a["after"], boom)
        if a["mode"] == "items":
            return bad_items(a, v, boom)
        return (BadObj if a["mode"] == "conv" else BadHtml)(boom, k)

    @staticmethod
    def real_iter(v, after, boom):
        for x in list(v)[:after]:
            yield x
        boom()

    def perform(self, op, where):
        """One render, checked against the model.  Returns its exception."""
        sim = self.sim
        want = self.outcome(op)
        p = Probe(op.get("nest") or {})
        p.on_action = lambda a, k, n, v: self.real_action(a, k, n, v, p, where)
        ctx = self.real_ctx(op, p)
        before = dict(ctx)
        passed = mapping(ctx, op.get("as"))
        given = dict(passed)
        what = "%s: %s of %s" % (where, op["func"], op["tmpl"])
        t = self.template(op)
        got = exc = held = None
        me = sim.cur if sim.in_task() else None
        self.active += 1
        sw0 = sim.nswitch
        injected = []
        try:
            if op.get("interrupt") and me is not None:
                def factory():
                    e = KeyboardInterrupt("simulated")
                    injected.append(e)
                    return e
                self.sim.interrupt(op["interrupt"], factory)
            if op.get("handling"):
                # an error page: rendered while an exception is handled
                try:
                    raise LookupError("handled")
                except LookupError:
                    got, held = self.call_render(t, passed, op)
            else:
                got, held = self.call_render(t, passed, op)
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except BaseException as e:
            exc = e
        finally:
            if me is not None:
                self.sim.no_interrupt()
            self.active -= 1
        if self.active and sim.nswitch != sw0:
            self.env.nontrivial = True
            sim.probe("renders_overlapped")
        sim.log("render", where, op["tmpl"], type(exc).__name__)
        if injected:
            self.check_interrupted(what, exc, injected[0], p, want)
        elif want.boom is None:
            if exc is not None:
                raise Violation("unexpected-exception", "%s raised %s: %s" % (
                    what, type(exc).__name__, exc))
            if self.check_log:
                check_same(p.log, want.log, what + " (expressions evaluated)", "wrong-evaluations")
            if self.check_text:
                if got is not None:
                    if not isinstance(got, str):
                        raise Violation("wrong-output", "%s returned %r" % (what, type(got)))
                    check_same(self.norm(got, want.text), want.text, what)
                else:
                    self.late.append((what, held.join, want.text))
        else:
            if exc is None:
                raise Violation("exception-lost", "%s: the exception raised at %s (%r) was swallowed" % (
                    what, want.boom, p.raised))
            if self.check_log:
                check_same(p.log, want.log, what + " (expressions evaluated)", "wrong-evaluations")
            self.check_failed(what, exc, p, want)
        if list(ctx.items()) != list(before.items()) or any(ctx[k] is not before[k] for k in ctx):
            raise Violation("context-modified", "%s: the caller's context now has %r" % (
                what, sorted(set(ctx) ^ set(before)) or "other values"))
        if list(given) != list(passed) or any(given[k] is not passed[k] for k in given):
            raise Violation("context-modified", "%s: the context given (%s) now has %r" % (
                what, op.get("as"), sorted(set(given) ^ set(passed)) or "other values"))
        if want.caps and self.check_text:
            self.capture(op, what, before, t, want)
        return exc

    @staticmethod
    def call_render(t, ctx, op):
        if op["via"] == "render":
            return t.render(ctx, op["func"]), None
        held = t.render_to_buffer(ctx, op["func"])
        return held.join() if op["via"] == "buffer" else None, held

    def check_failed(self, what, exc, p, want):
        if not self.check_exc:
            return
        if exc is not p.raised:
            raise Violation("wrong-exception", "%s raised %s: %s instead of %r, raised at %s" % (
                what, type(exc).__name__, exc, p.raised, want.boom))
        now = about(exc)
        if now[:3] != p.planned[:3] or any(a is not b for a, b in zip(now[3:], p.planned[3:])):
            raise Violation("exception-changed", "%s: %r: (args, attributes, text, cause, context, context suppressed) "
                            "were %r, are %r" % (
                what, exc, p.planned, now))

    def check_interrupted(self, what, exc, injected, p, want):
        if exc is not injected:
            raise Violation("wrong-exception", "%s was interrupted by %r but ended with %r" % (
                what, injected, exc))
        if self.check_log and want.log[:len(p.log)] != p.log:
            raise Violation("wrong-evaluations", "%s: interrupted after %r, expected a prefix of %r" % (
                what, p.log, want.log))

    def capture(self, op, what, before, t, want):
        """Functions bound in a render's context keep that context."""
        from tonnikala.loader import make_template_context

        p2 = Probe()
        c2 = make_template_context(dict(before, **self.real_ctx(op, p2)))
        t.bind(c2)
        for name in op["capture"]:
            fn = c2[name]
            self.late.append((what + " (captured %s)" % name, lambda fn=fn: fn().join(), want.caps[name]))

    def flush_late(self):
        late, self.late = self.late, []
        for what, f, want in late:
            self.sim.probe("late_result")
            check_same(self.norm(f(), want), want, what + " (used later)")

    def run_tasks(self, preload=True):
        plan, sim = self.env.plan, self.sim
        if preload:
            for n in sorted(self.files):
                try:
                    self.loader.load(n)
                except Exception as e:
                    # (the class has the text, for shrinking not to end at another error)
                    cls = "load-failed-" + "-".join(re.findall("[A-Za-z]+", repr(e)))[:60]
                    raise Violation(cls, "%s, a valid template, cannot be loaded: %r" % (n, e))
        self.env.measure = "t%d" % len(plan["tasks"])
        for i, ops in enumerate(plan["tasks"]):
            def body(i=i, ops=ops):
                for j, op in enumerate(ops):
                    self.perform(op, "task%d.%d" % (i, j))
                self.flush_late()
            sim.spawn("task%d" % i, body)
        sim.run()
        self.flush_late()


def shrink_ops(plan):
    """Simpler operations: no nested actions, no captures, inner operations shrunk."""
    def simpler(o):
        for key in ("capture", "interrupt", "string", "as", "handling"):
            if o.get(key):
                o2 = dict(o)
                del o2[key]
                yield o2
        nest = o.get("nest") or {}
        for k in nest:
            yield dict(o, nest={a: b for a, b in nest.items() if a != k})
            if isinstance(nest[k], dict) and "op" in nest[k]:
                for inner in simpler(nest[k]["op"]):
                    yield dict(o, nest=dict(nest, **{k: dict(nest[k], op=inner)}))
        if o.get("via") != "render":
            yield dict(o, via="render")

    for i, t in enumerate(plan["tasks"]):
        for j, o in enumerate(t):
            for o2 in simpler(o):
                yield dict(plan, tasks=plan["tasks"][:i] + [t[:j] + [o2] + t[j + 1:]] + plan["tasks"][i + 1:])


# ------------------------------------------------------------- shrinking

def drop_each(lst):
    """All lists with one chunk removed, big chunks first."""
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            c = lst[:i] + lst[i + size:]
            if len(c) < n:
                yield c
        size //= 2


def shrink_nodes(nodes):
    """Smaller child lists."""
    for c in drop_each(nodes):
        yield c
    for i, n in enumerate(nodes):
        kids_at = {"el": 4, "if": 2, "for": 3, "with": 2, "def": 3, "block": 2, "raw": 2}.get(n[0])
        if kids_at is None:
            continue
        for c in shrink_nodes(n[kids_at]):
            yield nodes[:i] + [n[:kids_at] + [c] + n[kids_at + 1:]] + nodes[i + 1:]
        if n[0] == "el":
            for c in drop_each(n[2]):
                yield nodes[:i] + [n[:2] + [c] + n[3:]] + nodes[i + 1:]
            for k in list(n[3]):
                d = {a: b for a, b in n[3].items() if a != k}
                yield nodes[:i] + [n[:3] + [d] + n[4:]] + nodes[i + 1:]


def shrink_files(files, used=None):
    for name in list(files):
        f = files[name]
        for part in ("body", "defs", "imports"):
            if not f.get(part):
                continue
            gen = shrink_nodes(f[part]) if part != "imports" else drop_each(f[part])
            for c in gen:
                g = dict(files)
                g[name] = dict(f, **{part: c})
                yield g


def shrink_plan(plan, keys=("tasks",), files=True):
    """Generic: drop tasks, drop operations, then shrink templates."""
    for key in keys:
        v = plan.get(key)
        if not isinstance(v, list):
            continue
        for c in drop_each(v):
            if c or key != "tasks":
                yield dict(plan, **{key: c})
        for i, t in enumerate(v):
            if isinstance(t, list):
                for c in drop_each(t):
                    yield dict(plan, **{key: v[:i] + [c] + v[i + 1:]})
            elif isinstance(t, dict) and isinstance(t.get("ops"), list):
                for c in drop_each(t["ops"]):
                    yield dict(plan, **{key: v[:i] + [dict(t, ops=c)] + v[i + 1:]})
    if files and plan.get("files"):
        for f in shrink_files(plan["files"]):
            yield dict(plan, files=f)


def occurrences(files, name, ctx, func="__main__", gettext=None):
    """[(k, n)...] in evaluation order when nothing fails (by the model)."""
    mp = ModelProbe()
    m = tmpl.Model(files, mp, gettext=gettext)
    c = {k: tmpl.model_value(v, lambda s: MObj(s, ModelProbe())) for k, v in ctx.items()}
    m.render(name, c, func)
    occ = {}
    out = []
    for k in mp.log:
        occ[k] = occ.get(k, 0) + 1
        out.append((k, occ[k]))
    return out
