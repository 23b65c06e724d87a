"""C03: tracebacks point at the failing template line."""
import copy
import os

from .. import boot, core, renderlib as rl, tmpl
from ..core import Violation

ID = "C03"
RUNS = {"quick": 2400, "thorough": 100000}
REAL = ["tonnikala.loader", "tonnikala.runtime.debug", "source positions in the generated code", "compiled templates"]
STUBS = ["thread scheduling", "locks", "clock", "disk (real files behind a fault seam, no faults here)"]
RULE = ("1-3 tasks of renders of multi-line templates, most of which fail at a planned expression (while evaluated, "
        "converted, iterated, or in a nested render); the template entries of the traceback are compared with the "
        "constructs active in the model at that moment; in some histories templates with a fault put into them are loaded "
        "between the renders, and the error has to be located at the fault; non-trivial: at least one traceback was compared")


KIDS = {"el": 4, "if": 2, "for": 3, "with": 2, "def": 3, "block": 2}


def spread(rng, files):
    """Put the nodes of a template, and the parts of expressions, on different lines."""
    p_nl = rng.choice([0, 0, 0.1, 0.3])
    p_ref = rng.choice([0, 0, 0.1])

    def expr(e):
        # (not within an f-string)
        if isinstance(e, list) and e[0] != "fs":
            at = {"p": [2], "bi": [2], "same": [2], "dform": [2], "+": [1, 2], "and": [1, 2], "or": [1, 2], "not": [1], "lit": [1],
                  "ife": [1, 2, 3], "lam": [2, 3], "lc": [1, 3], "gj": [2, 4]}.get(e[0], [])
            e = list(e)
            for i in at:
                e[i] = expr(e[i])
            if e[0] in ("call", "at", "L"):
                e[-1] = [expr(x) for x in e[-1]]
            elif e[0] == "dict":
                e[1] = [[a, expr(b)] for a, b in e[1]]
            elif e[0] == "kw":
                e[2] = [[a, expr(b)] for a, b in e[2]]
        if rng.random() < p_nl:
            return ["nl", rng.choice([1, 1, 2]), e]
        return e

    def part(x):
        if isinstance(x, str):
            if rng.random() < p_ref:
                return ["ref", x + "\n"]
            return x + "\n" * rng.choice([0, 0, 1, 2]) if p_nl else x
        return expr(x)

    def nodes(ns, top):
        out = []
        for n in ns:
            n = list(n)
            k = n[0]
            if k in KIDS:
                n[KIDS[k]] = nodes(n[KIDS[k]], False)
            if k in ("E", "if"):
                n[1] = expr(n[1])
            elif k in ("for", "py"):
                n[2] = expr(n[2])
            elif k == "with":
                n[1] = [[v, expr(e)] for v, e in n[1]]
            elif k == "def" and len(n) > 4:
                n[4] = {a: expr(e) for a, e in n[4].items()}
            elif k == "el":
                n[2] = [[a, [v[0], expr(v[1])] if v[0] == "x" else [v[0], [part(x) for x in v[1]]] if v[0] == "m"
                         else v] for a, v in n[2]]
                n[3] = {d: v if v == "" else [v[0], expr(v[1])] if d == "for" else
                        [[a, expr(e)] for a, e in v] if d == "with" else expr(v) for d, v in n[3].items()}
            if rng.random() < 0.5:
                out.append(["T", "\n" * rng.choice([1, 1, 1, 2, 3])])
            if rng.random() < p_ref:
                out.append(["TR", rng.choice(["\n", " a\n\tb", "&\n\n"])])
            out.append(n)
        return out

    for f in files.values():
        if not f.get("ext"):
            f["body"] = nodes(f["body"], True)
        else:
            f["body"] = [n[:2] + [nodes(n[2], False)] for n in f["body"]]
        f["defs"] = [d[:3] + [nodes(d[3], False)] + [{a: expr(e) for a, e in x.items()} for x in d[4:]]
                     for d in f["defs"]]
        if rng.random() < 0.5:
            f["style"] = st = dict(f.get("style") or {})
            if rng.random() < 0.2:
                st["case"] = rng.choice([1, 2, 3])
            if rng.random() < 0.5:
                st["attrs"] = rng.choice(["\n", "\n\n", " \n  "])
            if rng.random() < 0.5:
                st["vars"] = rng.choice([";\n", ";\n\n"])
            if rng.random() < 0.5:
                st["code"] = rng.choice(["\n", "\n\n\n", " # x\n", "\nqq = 1\n"])
            if rng.random() < 0.3:
                st["before"] = rng.choice(["\n", "\n\n", "<!-- a\n b -->\n", "<!DOCTYPE html>\n"])
            if rng.random() < 0.2:
                st["eq"] = "=\n"
            if rng.random() < 0.2:
                st["crlf"] = True


# (constructs which cannot be compiled, the line of the problem within them)
MARK = "\ue000"
FAULTS = [(x.replace("|", ""), x[:x.index("|")].count("\n")) for x in (
    "|${1 +}", "|${a b}", "${\n|1 +}", "|${x!}", "|${a; b}", "|${for}", "|${lambda: }", "|${yield}", "|${<br/>", "|${a.b<br/>",
    "|$x(<br/>", "|${await x}", "|&nosuch;", "|</zz>", "|<i title=\"${1 +}\"/>", "<i\n\n |title=\"a ${b c} d\"/>",
    "<i title=\"\n|${1 +}\"/>", "<i title=\"a&#10;\n|${1 +}\"/>", "<i a=\"1\"\nb='2'\n |c=\"${not}\">x</i>")]
PYFAULTS = FAULTS + [(x.replace("|", ""), x[:x.index("|")].count("\n")) for x in (
    "|<py:nosuch/>", "|<i py:nosuch=\"1\"/>", "|<py:if>a</py:if>", "|<py:for>a</py:for>", "|<py:def>a</py:def>",
    "|<py:with>a</py:with>", "|<py:block>a</py:block>", "|<py:import href=\"a.html\"/>", "|<py:import alias=\"a\"/>",
    "|<py:extends/>", "|<py:replace/>", "|<py:if test=\"1 +\">a</py:if>", "<py:if\n|test=\"a = \">a</py:if>",
    "|<py:for each=\"x\">a</py:for>", "|<py:for each=\"x in [1 2]\">a</py:for>", "|<py:def function=\"f(\">a</py:def>",
    "|<py:def function=\"f(x, y\">a</py:def>", "|<py:with vars=\"1 = 2\">a</py:with>",
    "<py:with vars=\"a = 1;\n|b = = 2\">a</py:with>", "|<py:block name=\"a b\">a</py:block>", "|<py:block name=\"1\">a</py:block>",
    "|<py:block name=\"class\">a</py:block>", "|<i py:if=\"1 +\"/>", "<i\n |py:if=\"1 +\">a</i>", "|<i py:for=\"x\">a</i>",
    "|<i py:strip=\"1 +\"/>", "|<i py:attrs=\"1 +\"/>", "<b\n |py:content=\"1 +\"/>", "|<i py:replace=\"1 +\"/>",
    "|<?python a = = ?>", "<?python\na = 1\n|b = =\n?>", "<?python\nif 1:\n|x\n?>", "|<?python?>",
    "|<py:if test=\"1\"></zz></py:if>", "<py:if test=\"1\">\n|</p></py:if>", "<p>\n<b>\n|</p>")]


def never(e):
    """What the compiler knows to be false; it does not look below."""
    no = False
    while e[0] in ("not", "nl"):
        no ^= e[0] == "not"
        e = e[-1]
    return e[0] == "c" and bool(e[1]) == no


def places(f):
    """The lists of nodes of a file into which a node can be put."""
    out = []

    def nodes(ns, ok=True):
        if ok:
            out.append(ns)
        for n in ns:
            if n[0] == "el":
                if n[1] not in tmpl.VOID and not {"content", "replace"} & set(n[3]) and not never(n[3].get("if", ["v"])):
                    nodes(n[4])
            elif n[0] == "if" and never(n[1]):
                pass
            elif n[0] in KIDS:
                nodes(n[KIDS[n[0]]])

    nodes(f["body"], not f.get("ext"))
    for d in f.get("defs", ()):
        nodes(d[3])
    return out


def faulty(f, where, at, what):
    """The source of ``f`` with a fault, and the line of the fault."""
    f = copy.deepcopy(f)
    ps = places(f)
    ns = ps[where % len(ps)]
    ns.insert(at % (len(ns) + 1), ["T", MARK])
    faults = FAULTS if f.get("tal") else PYFAULTS
    text, line = faults[what % len(faults)]
    src = tmpl.source(f)
    line += src[:src.index(MARK)].count("\n") + 1
    if (f.get("style") or {}).get("crlf"):
        text = text.replace("\n", "\r\n")
    return src.replace(MARK, text), line


def generate(rng, tier):
    g = tmpl.Gen(rng, feat={"lit": True, "tal": rng.random() < 0.1, "plus": False, "dgen": False}, maxdepth=rng.choice([3, 4, 5]))
    env = g.context_vars()
    files = g.fileset(env)
    spread(rng, files)
    if rng.random() < 0.2:
        tmpl.add_twin(rng, files)
    plan = {"files": files, "preload": rng.random() < 0.85, "tasks": []}
    i = 0
    broken = rng.random() < 0.4
    for t in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            i += 1
            op = rl.draw_op(rng, files, env, "r%d_" % i, nest_p=0.25, fail_p=0.85, fails=rl.ORDINARY)
            op["capture"] = []
            ops.append(op)
            if broken and rng.random() < 0.5:
                ops.insert(rng.randint(0, len(ops)), {
                    "fault": [rng.choice(sorted(files)), rng.randrange(1000), rng.randrange(1000), rng.randrange(1000)],
                    "via": rng.choice(["load", "load", "string", "extends", "import"])})
        plan["tasks"].append(ops)
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p


class World(rl.World):
    def perform(self, op, where):
        if "fault" not in op:
            return super().perform(op, where)
        name = op["fault"][0]
        if name not in self.files or not places(self.files[name]):
            return
        tal = self.files[name].get("tal")
        src, line = faulty(self.files[name], *op["fault"][1:])
        page = bad = "bad-%s.html" % where
        via = op["via"]
        if via in ("extends", "import") and not tal:
            page = "page-%s.html" % where
        with core.NoPreempt():
            with boot.real.open(os.path.join(self.dir, bad), "w", encoding="utf-8", newline="") as f:
                f.write(src)
            if page != bad:
                with boot.real.open(os.path.join(self.dir, page), "w") as f:
                    f.write('\n<py:extends href="%s">\n</py:extends>' % bad if via == "extends" else
                            '<html xmlns:py="http://www.tonnikala.org/ns">\n\n<py:import href="%s" alias="q"/>a\n</html>'
                            % bad)
        exc = None
        try:
            if via == "string":
                self.StringLoader().load_string(src, filename="<sim %s>" % bad)
            else:
                t = self.loader.load(page)
                if page != bad:
                    t.render({})
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except Exception as e:
            exc = e
        what = "%s: loading a template with a fault on line %d:\n%s\n" % (where, line, src)
        if exc is None:
            raise Violation("fault-accepted", what)
        self.sim.probe("faulty_loads")
        self.env.nontrivial = True
        got = self.entries(exc)
        if (bad, line) not in got[-1:]:
            # (what only the compiler of the interpreter finds)
            if type(exc) is SyntaxError and exc.lineno == line and os.path.basename(exc.filename).endswith(
                    bad if via != "string" else "<sim %s>" % bad):
                return
            raise Violation("fault-not-located", "%s%r: the traceback has %r" % (what, exc, got))

    def check_failed(self, what, exc, p, want):
        self.env.nontrivial = True
        self.compare(what, exc, self.entries(exc), want.stack)

    def entries(self, exc):
        got = []
        tb = exc.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(self.dir):
                got.append((fn[len(self.dir) + 1:], tb.tb_lineno))
            elif fn.startswith("<sim "):
                got.append((fn[5:-1], tb.tb_lineno))
            tb = tb.tb_next
        return got

    def compare(self, what, exc, got, want):
        # in order; a construct may have further entries (variable scopes)
        def match(g, w):
            # a failing conversion is anywhere on the lines of its expression
            f, line = w
            return g[0] == f and (line is None or (line[0] <= g[1] <= line[1] if isinstance(line, (tuple, list)) else g[1] == line))

        it = iter(got)
        ok = all(any(match(g, w) for g in it) for w in want) and got and match(got[-1], want[-1])
        ok = ok and {f for f, _ in got} <= {f for f, _ in want}
        if not ok:
            raise Violation("wrong-traceback", "%s: %r: the traceback has %r, the failing expressions are on %r" % (
                what, exc, got, want))


def execute(env):
    w = World(env, lines=True, check_log=False)
    w.check_text = False
    w.run_tasks(env.plan["preload"])
