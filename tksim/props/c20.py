"""C20: compilation is reproducible."""
import json
import os
import random
import subprocess
import sys
import types

from .. import boot, compilelib as cl, core, jstmpl, tmpl, worker
from ..core import Violation
from . import c18

ID = "C20"
RUNS = {"quick": 1000, "thorough": 40000}
REAL = ["parser", "Python and JavaScript generators", "slimit and ply", "Loader, JSLoader", "compiled templates"]
STUBS = ["thread scheduling (also at the function calls of slimit, ply, html.parser and minidom)", "asynchronous exceptions"]
RULE = ("1-4 tasks compile drawn templates (Python and JavaScript, valid and invalid, translatable or not, minified or "
        "not, the same texts again at other places) in a process with a history, in any interleaving of the calls in the "
        "compiler and its libraries, and are interrupted at any of them; every result - the JavaScript text, the error, "
        "or the output, evaluations and error lines of renders - is compared with that of a pristine process with another "
        "hash seed that compiled nothing else; non-trivial: two compilations overlapped, or one followed a failed or "
        "interrupted one")
ORACLE = None
LIBS = ("slimit", "ply", "html.parser", "_markupbase", "xml.dom.minidom", "xml.dom.expatbuilder")

PY_BROKEN = [
    "<html><div></html>", "<html py:frob='1'></html>", "<py:nothing></py:nothing>", "<html>${a +}</html>",
    "<html><py:if>x</py:if></html>", "<html>\n<?python x = = 3 ?></html>", "<html>\n\n${a</html>", "text only",
    "<html><py:for each='x'>y</py:for></html>", "<html>\n<p py:if='('>x</p></html>", "<html>&nosuch;</html>",
    "<html>$a(</html>", "<html>\n\n  <p title='${a b}'>x</p></html>", "<a></b>", "<html><py:def>x</py:def></html>",
    "<html>${a}\n${b c}</html>", "<py:extends href='x'><p>y</p></py:extends>", "<html></html><html></html>",
    "<html>\n<p py:strip='a b'/></html>", "<html>\n<p py:with='a b'/></html>", "<html>${[}</html>", "<html>${'}</html>",
]
NAMES = ("alpha beta gamma delta epsilon zeta eta theta iota kappa lam mu nu xi omicron pi rho sigma tau upsilon phi chi "
         "psi omega").split()


def only_calls(module):
    """Make the calls of a library's functions scheduling points."""
    mon = sys.monitoring
    seen = set()

    def code(c):
        if c in seen:
            return
        seen.add(c)
        mon.set_local_events(boot.TOOL, c, mon.events.PY_START)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                code(k)

    for v in vars(module).values():
        for f in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
            f = getattr(f, "__func__", getattr(f, "fget", f))
            if isinstance(f, types.FunctionType):
                code(f.__code__)


def setup():
    global ORACLE
    from tonnikala.loader import JSLoader

    # (what is imported at the first use must not be imported by a task)
    JSLoader().load_string("<html>${a}</html>")
    JSLoader(minify=True).load_string("<html>${a}</html>")
    import markupsafe  # noqa

    for name in sorted(sys.modules):
        if name in LIBS or name.startswith(("slimit.", "ply.")):
            only_calls(sys.modules[name])
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str((int(e.get("PYTHONHASHSEED", "0")) * 7919 + 13) % 4294967295)
    p = subprocess.Popen([sys.executable, "-X", "utf8", "-W", "ignore", "-m", "tksim.oracle", boot.REPO],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, text=True, bufsize=1, cwd=boot.VERIF)
    if p.stdout.readline() != "ready\n":
        raise core.HarnessError("the oracle did not start")
    ORACLE = p


def ask(items):
    ORACLE.stdin.write(json.dumps(items) + "\n")
    ORACLE.stdin.flush()
    line = ORACLE.stdout.readline()
    if not line:
        raise core.HarnessError("the oracle has ended")
    return json.loads(line)


def many_names(rng, js, few=False):
    names = rng.sample(NAMES[:6], rng.randint(2, 6)) if few else rng.sample(NAMES, rng.randint(4, len(NAMES)))
    out = []
    scopes = rng.random() < 0.6
    for n in names:
        r = rng.random()
        if scopes and r < 0.4:
            # a name that is not local in the other templates
            f = rng.choice(["<js:for each=\"%s in [1, 2]\">${%s}<b title=\"${%s}\"/></js:for>",
                            "<js:def function=\"f%d(%%s)\">${%%s}${%%s}</js:def>" % len(out),
                            "<js:with vars=\"%s = 1\">${%s}${%s}</js:with>"])
            out.append(f % (n, n, n))
            if rng.random() < 0.3:
                out.append("${%s}" % n)
        elif r < 0.6:
            out.append("${%s}" % n)
        elif r < 0.7:
            out.append("<i title=\"${%s}\"/>" % n)
        elif r < 0.8:
            out.append("<js:if test=\"%s\">%s</js:if>" % (n, n))
        elif r < 0.84 and js:
            out.insert(0, "<js:import href=\"%s\" alias=\"%s\"/>" % (n, n))
        elif r < 0.9:
            out.append("<js:def function=\"%s(q)\">${q}${%s}</js:def>" % (n + "_f", n))
        else:
            out.append("<js:block name=\"%s\">${%s}</js:block>" % (n + "_b", n))
    s = "<html xmlns:js=\"http://www.tonnikala.org/ns\">%s</html>" % "\n".join(out)
    return s if js else s.replace("js:", "py:")


def item(rng, names=None):
    js = rng.random() < 0.5 if names is None else names
    it = {"lang": "js" if js else "py", "opts": {}, "ctxs": [], "fails": []}
    r = rng.random()
    if js:
        if rng.random() < 0.12:
            it["opts"]["minify"] = True
    elif rng.random() < 0.3:
        it["opts"]["translatable"] = True
    if r < 0.15 and names is None:
        it["src"] = rng.choice(c18.BROKEN if js else PY_BROKEN)
        return it
    if r < 0.35 or names is not None:
        it["src"] = many_names(rng, js, names is not None)
        if not js:
            it["ctxs"] = [{n: ["s", "<%s" % n] for n in NAMES}]
            it["fails"] = [None]
            if rng.random() < 0.5:
                it["ctxs"].append({n: ["s", "<%s" % n] for n in NAMES if rng.random() < 0.8})
                it["fails"].append(None)
        return it
    tal = False
    if js:
        g = tmpl.Gen(rng, feat={"builtins": False, "lit": True, "forms": False, "jsforms": True}, maxdepth=rng.choice([1, 2, 3]))
    else:
        tal = rng.random() < 0.2
        g = tmpl.Gen(rng, feat={"lit": True, "te": True, "tal": tal, "raw": True, "gj": False}, maxdepth=rng.choice([1, 2, 3]))
    env = g.context_vars()
    if tal:
        it["opts"] = {"syntax": "chameleon"}
        f = g.fileset(env)["page0.pt"]
    else:
        f, sig, blocks = g.file(env, nblocks=rng.randint(0, 2))
    f.pop("imports", None)
    if js and rng.random() < 0.3:
        f = g.child(env, "base", blocks, sig)
        f.pop("imports", None)
    if not js and not tal and rng.random() < 0.4:
        from .c03 import spread

        spread(rng, {"page": f})
    s = jstmpl.source(f) if js else tmpl.source(f)
    if rng.random() < 0.4:
        # the same texts on other lines
        i = s.find("\n") + 1
        s = s[:i] + rng.choice(["\n", "\n\n\n", " ", "<b>\n</b>\n"] if not f.get("ext") else ["\n"]) + s[i:]
    if rng.random() < 0.12:
        d = c18.damage(rng, s) if js else None
        s = d if d is not None else s
    it["src"] = s
    if not js:
        for _ in range(rng.choice([1, 2, 3])):
            it["ctxs"].append(tmpl.draw_context(rng, env, "c"))
            it["fails"].append(rng.randint(1, g.k) if g.k and rng.random() < 0.6 else None)
    return it


def generate(rng, tier):
    if rng.random() < 0.3:
        # a few names only, that are local ones in some of the templates
        js = rng.random() < 0.6
        items = [item(rng, js) for _ in range(rng.randint(2, 4))]
    else:
        items = [item(rng) for _ in range(rng.randint(2, 5))]
    if rng.random() < 0.3:
        # the same text with other options
        it = dict(rng.choice(items))
        it["opts"] = {"minify": True} if it["lang"] == "js" and not it["opts"] else \
            {"translatable": True} if it["lang"] == "py" and not it["opts"] else {}
        items.append(it)
    tasks = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            op = {"item": rng.randrange(len(items)), "own": rng.random() < 0.3}
            if rng.random() < 0.2:
                op["kill"] = core.draw_interrupt(rng, 3.5, 200)
                op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
            ops.append(op)
        tasks.append(ops)
    return {"items": items, "tasks": tasks, "last": sorted(set(rng.sample(range(len(items)), rng.randint(1, len(items)))))}


def draw_sched(rng):
    s = worker.default_sched(rng, est=20000, fine_p=0.0, deep_p=0.6)
    s["budget"] = 6_000_000
    if s["policy"] == "rand":
        s["p"] = 10 ** rng.uniform(-3.6, -1)
    return s


def shrinks(plan):
    ts = plan["tasks"]
    for i in range(len(ts)):
        if len(ts) > 1:
            yield dict(plan, tasks=ts[:i] + ts[i + 1:])
        for j in range(len(ts[i])):
            if len(ts[i]) > 1 or len(ts) > 1:
                yield dict(plan, tasks=[t for t in ts[:i] + [ts[i][:j] + ts[i][j + 1:]] + ts[i + 1:] if t])
            op = ts[i][j]
            if "kill" in op:
                op = {k: v for k, v in op.items() if k not in ("kill", "exc")}
                yield dict(plan, tasks=ts[:i] + [ts[i][:j] + [op] + ts[i][j + 1:]] + ts[i + 1:])
    for j in range(len(plan["last"])):
        yield dict(plan, last=plan["last"][:j] + plan["last"][j + 1:])
    for i, it in enumerate(plan["items"]):
        def with_(new):
            return dict(plan, items=plan["items"][:i] + [new] + plan["items"][i + 1:])
        for j in range(len(it["ctxs"])):
            yield with_(dict(it, ctxs=it["ctxs"][:j] + it["ctxs"][j + 1:], fails=it["fails"][:j] + it["fails"][j + 1:]))
        if it["opts"]:
            yield with_(dict(it, opts={}))
        s = it["src"]
        if s != "<html>${a}</html>" and it["lang"] == "js":
            yield with_(dict(it, src="<html>${a}</html>"))
        for n in (len(s) // 2, len(s) // 4, 40, 10):
            if n < 5:
                continue
            for k in range(0, len(s), n):
                yield with_(dict(it, src=s[:k] + s[k + n:]))


def small(v, n=1500):
    s = v if isinstance(v, str) else json.dumps(v, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + "..."


def where_differ(a, b):
    if a[0] == b[0] == "js":
        a, b = a[1], b[1]
    else:
        a, b = small(a, 1 << 20), small(b, 1 << 20)
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return "pristine: ...%s\n here:     ...%s" % (a[max(0, i - 80):i + 300], b[max(0, i - 80):i + 300])


class World(object):
    def __init__(self, env):
        self.env, self.sim, self.plan = env, env.sim, env.plan
        self.want = ask(self.plan["items"])
        for w in self.want:
            if w[0] == "dead":
                raise core.HarnessError("the oracle died of an item")
        self.loaders = cl.Loaders()
        self.active = 0
        self.trouble = False

    def compile(self, i, where, own=False, kill=None, exc=None):
        sim, item = self.sim, self.plan["items"][i]
        me = sim.cur
        injected = []
        if kill is not None and me is not None:
            def factory():
                injected.append({"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[exc]("simulated"))
                return injected[0]
            self.sim.interrupt(kill, factory)
        if self.active or self.trouble:
            self.env.nontrivial = True
        self.active += 1
        try:
            got = json.loads(json.dumps(cl.result(item, cl.Loaders() if own else self.loaders)))
        except (KeyboardInterrupt, MemoryError):
            if not injected:
                raise
            got = None
        finally:
            self.active -= 1
            if me is not None:
                self.sim.no_interrupt()
        if injected:
            # whatever came of it, the next compilations must not be affected
            sim.probe("interrupted")
            self.trouble = True
            injected[0].__traceback__ = None
            return
        want = self.want[i]
        if got[0] == "error":
            self.trouble = True
            sim.probe("invalid")
        sim.log("compile", where, i, item["lang"], got[0])
        if got != want:
            kind = got[0] if got[0] == want[0] else "%s instead of %s" % (got[0], want[0])
            raise Violation("irreproducible", "%s: the result (%s) of %r with %s is not that of a process which has "
                            "compiled nothing else\n %s" % (where, kind, small(item["src"], 700), item["opts"],
                                                           where_differ(want, got)))

    def run(self):
        plan, sim = self.plan, self.sim
        self.env.measure = "t%d i%d" % (len(plan["tasks"]), len(plan["items"]))
        for n, ops in enumerate(plan["tasks"]):
            def body(n=n, ops=ops):
                for j, op in enumerate(ops):
                    self.compile(op["item"], "task%d.%d" % (n, j), op["own"], op.get("kill"), op.get("exc"))
            sim.spawn("task%d" % n, body)
        sim.run()
        self.trouble = True
        for i in plan["last"]:
            self.compile(i, "at the end")


def execute(env):
    World(env).run()
