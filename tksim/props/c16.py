"""C16: the Pyramid renderer serves concurrent requests independently."""
import collections
import os
import sys
import types

from .. import boot, core, renderlib as rl, tmpl, worker
from ..core import Violation
from . import c14

ID = "C16"
RUNS = {"quick": 1750, "thorough": 100000}
REAL = ["tonnikala.pyramid (renderer, loader, directives, settings)", "Pyramid's router, views, renderers, subrequests",
        "WebOb", "pkg_resources", "tonnikala.loader", "template compiler", "tonnikala.runtime (C and Python buffer)"]
STUBS = ["the WSGI server (requests are calls of the application in simulated threads)", "thread scheduling", "locks",
         "clocks", "disk errors", "asynchronous exceptions", "message catalogues"]
RULE = ("an application configured through settings or directives (search paths in directories and packages with "
        "files of the same name in several of them, extensions, reload, translation); 1-3 tasks make requests (or call a renderer that they share) whose "
        "views return dictionaries and other mappings, or something else; pages make subrequests, render other "
        "templates and fragments from their expressions, fail, are interrupted, meet disk errors, are edited; every "
        "response is compared with the model's; non-trivial: nested or interleaved renders, a failure or an edit")


def draw_sched(rng):
    return worker.default_sched(rng, est=2500, fine_p=0.45)


def setup():
    import pyramid.config       # noqa: F401  (imported once, before the runs)
    import pyramid.renderers    # noqa: F401
    import pyramid.request      # noqa: F401
    import tonnikala.pyramid    # noqa: F401
    from pyramid.request import Request, apply_request_extensions

    globals().update(Request=Request, apply_request_extensions=apply_request_extensions)


BAD = ["none", "int", "text", "list", "object"]


def generate(rng, tier):
    l10n = rng.random() < 0.4
    feat = {"plus": False, "lit": False, "raw": not l10n}
    if l10n:
        feat.update(te=True, gt=True)
    g = tmpl.Gen(rng, feat=feat, maxdepth=rng.choice([2, 3]))
    env = g.context_vars()
    small = rng.random() < 0.25
    if small:
        # one short page that everybody asks for
        files = {"base.tk": {"ext": None, "imports": [], "defs": [], "body": [
            ["block", "blk", [["E", ["p", 1, ["v", "s0"]]]]], ["E", ["p", 2, ["v", "s1"]]]]},
            "child0.tk": {"ext": "base.tk", "imports": [], "defs": [], "body": [
                ["block", "blk", [["E", ["p", 3, ["v", "s1"]]]]]]}}
    else:
        files = g.fileset(env)
    for f in files.values():
        # what the framework and the request give
        if not f.get("ext") and rng.random() < 0.8:
            f["body"].append(["E", ["v", "renderer_name"]])
            f["body"].append(["E", ["v", "request.rid"]])
    if rng.random() < 0.4 and not small:
        files["page0.xhtml"] = files.pop("page0.tk")
    elif rng.random() < 0.2 and not small:
        files["pa:ge0.tk"] = files.pop("page0.tk")
    names = sorted(files)
    ndirs = rng.choice([1, 2, 3])
    plan = {"files": files, "l10n": l10n, "reload": rng.random() < 0.5,
            "config": {"sep": rng.choice([" ", "\n", "\n  ", "  "]), "paths": rng.choice(["string", "list", "directive", "late"]),
                       "reload": rng.choice(["setting", "pyramid", "both", "directive"]),
                       "l10n": rng.choice(["setting", "directive"]),
                       "ext": rng.choice(["string", "dots", "list", "directive"])},
            "dirs": [rng.choice(["dir", "pkg"]) for _ in range(ndirs)], "tmpl": rng.choice(["tmpl", "tmpl", "my tmpl", "té,;mpl"]),
            "where": {n: rng.randrange(ndirs) for n in files},
            "views": [], "tasks": []}
    for n in names:
        for form in ["plain", "plain", "asset", "abs"]:
            if form == "plain" or rng.random() < (0.6 if ":" in n else 0.2) and not small:
                v = [n, form]
                if v not in plan["views"]:
                    plan["views"].append(v)
    langs = rng.sample(c14.LANGS, rng.choice([2, 3])) + [None]
    nt = rng.choice([2, 3, 4]) if small else rng.choice([1, 1, 2, 2, 3])
    plan["preload"] = nt == 1 and rng.random() < 0.5
    hot = rng.choice(names)
    direct = rng.choice([0, 0.2, 0.8])
    i = 0
    rid = [0]

    def place(o, outer, base):
        """Turn a drawn render into a request or a render inside of one."""
        o["via"], o["func"], o["capture"], o["string"] = "render", "__main__", [], False
        if outer is None:
            o["how"] = "direct" if rng.random() < direct else "request"
        else:
            o["how"] = rng.choice(["subrequest", "render", "response", "fragment", "fragment"])
        forms = [f for n, f in plan["views"] if n == o["tmpl"]]
        o["form"] = rng.choice(forms)
        if o["how"] in ("request", "direct", "subrequest"):
            rid[0] += 1
            o["rid"] = rid[0]
            base = o
        else:
            o["rid"] = outer["rid"]
            if o["lang"] is None:
                o["lang"] = langs[0]
        if o["how"] == "fragment":
            o["given"] = sorted(k for k in o["ctx"] if rng.random() < 0.5)
            for k in o["ctx"]:
                if k not in o["given"]:
                    o["ctx"][k] = base["ctx"][k]
        o["kind"] = rng.choice(["dict", "dict", "ordered", "proxy", "keys"])
        if rng.random() < 0.06:
            # a value by the name of one of the framework's
            o["rname"] = rng.choice(names + ["nothing.tk", "<x>"])
        o["as"] = "dict"
        for a in (o.get("nest") or {}).values():
            if "op" in a:
                place(a["op"], o, base)

    for t in range(nt):
        ops = []
        for _ in range(rng.randint(1, 4)):
            i += 1
            r = rng.random()
            if r < 0.1:
                ops.append({"op": "bad", "value": rng.choice(BAD), "view": rng.randrange(len(plan["views"]))})
                continue
            if r < 0.18:
                ops.append({"op": "io", "view": rng.randrange(len(plan["views"])),
                            "at": rng.choice(["open", "read", "fstat"])})
                continue
            if plan["preload"] and r < 0.4:
                ops.append({"op": "edit", "name": rng.choice(names), "text": g.text(3, 8), "dt": rng.choice([0.51, 0.7, 5]),
                      "earlier": rng.random() < 0.5})
                continue
            op = rl.draw_op(rng, files, env, "r%d_" % i, nest_p=0.45, fail_p=0.15,
                            page=hot if rng.random() < (0.9 if small else 0.4) else None)
            c14.decorate(rng, files, env, op, "r%d_" % i, l10n, langs)
            place(op, None, None)
            if not op.get("nest") and rng.random() < 0.1:
                op["interrupt"] = core.draw_interrupt(rng, 2.8, 60)
            op["op"] = "request"
            ops.append(op)
        plan["tasks"].append(ops)
    # when all is done: an edit, and the page again
    n = rng.choice(names)
    op = rl.draw_op(rng, files, env, "end_", nest_p=0, page=n)
    c14.decorate(rng, files, env, op, "end_", False, langs)
    op["nest"] = {}
    place(op, None, None)
    op["form"] = "plain"
    plan["end"] = [{"op": "edit", "name": n, "text": g.text(3, 8), "dt": rng.choice([0.51, 0.7, 5]),
                      "earlier": rng.random() < 0.5},
                   dict(op, op="request")]
    return plan


def shrinks(plan):
    if plan["end"]:
        yield dict(plan, end=[])
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p


class Keys(object):
    """The least that dict.update takes for a mapping."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


class Page(object):
    """What World.perform takes for a template: renders by a request."""

    def __init__(self, world, op):
        self.world, self.op = world, op

    def render(self, ctx, func):
        return self.world.respond(self.op, ctx)


class World(c14.World):
    def __init__(self, env):
        self.env = env
        self.sim = env.sim
        plan = env.plan
        env.plan["trans"] = plan["l10n"]
        self.files = {n: f for n, f in plan["files"].items()}
        self.active = 0
        self.late = []
        self.lines = None
        self.check_log = self.check_text = self.check_exc = True
        self.frames = {}        # task -> [(request, system, the view's values)...]
        self.fault = {}
        self.hits = {}
        self.nwrite = 0
        self.make_dirs()
        self.configure()
        boot.fs.hook = self.hook

    # -- the application ---------------------------------------------------------
    def make_dirs(self):
        plan = self.env.plan
        self.specs, self.roots, self.path, self.asset = [], [], {}, {}
        self.sub = plan.get("tmpl", "tmpl")
        self.where = dict(plan["where"])
        if " " in self.sub and plan["config"]["paths"] == "string":
            self.sub = "tmpl"       # (spaces separate the paths in a string)
        sys.path.insert(0, self.env.root)
        for i, kind in enumerate(plan["dirs"]):
            pkg = os.path.join(self.env.root, "tkpkg%d" % i)
            d = os.path.join(pkg, self.sub)
            os.makedirs(d)
            with boot.real.open(os.path.join(pkg, "__init__.py"), "w"):
                pass
            self.roots.append(d)
            self.specs.append(d if kind == "dir" else "tkpkg%d:%s" % (i, self.sub))
        for n, f in plan["files"].items():
            w = plan["where"][n]
            self.write(w, n, tmpl.source(f))
            for j in range(w + 1, len(self.roots)):
                self.write(j, n, "<html>not this one</html>")
            self.path[n] = os.path.join(self.roots[w], n)
            self.asset[n] = "tkpkg%d:%s/%s" % (w, self.sub, n)

    def write(self, i, name, text):
        with boot.real.open(os.path.join(self.roots[i], name), "w", encoding="utf-8", newline="") as fo:
            fo.write(text)
        self.nwrite += 1
        t = 1_600_000_000 + self.nwrite
        os.utime(os.path.join(self.roots[i], name), (t, t))

    def ref(self, name, form):
        return {"plain": name, "asset": self.asset[name], "abs": self.path[name]}[form]

    def configure(self):
        try:
            self.make_app()
        except Exception as e:
            raise Violation("configuration-failed", "a valid configuration %r is refused: %r" % (
                self.env.plan["config"], e))

    def make_app(self):
        from pyramid.config import Configurator
        from pyramid.events import BeforeRender

        plan = self.env.plan
        c = plan["config"]
        s = {}
        onoff = {True: ["true", "1", "yes", True], False: ["false", "0", "", False]}
        pick = len(plan["views"]) % 4
        if c["paths"] == "string":
            s["tonnikala.search_paths"] = c.get("sep", "\n").join(self.specs)
        elif c["paths"] == "list":
            s["tonnikala.search_paths"] = list(self.specs)
        if c["reload"] in ("setting", "both"):
            s["tonnikala.reload"] = onoff[plan["reload"]][pick]
        if c["reload"] == "pyramid":
            s["pyramid.reload_templates"] = onoff[plan["reload"]][pick]
        elif c["reload"] == "both":
            s["pyramid.reload_templates"] = onoff[not plan["reload"]][pick]
        if c["l10n"] == "setting":
            s["tonnikala.l10n"] = onoff[plan["l10n"]][pick]
        if c["ext"] in ("string", "dots"):
            s["tonnikala.extensions"] = {"string": "tk%sxhtml" % c.get("sep", " "), "dots": ".tk\n.xhtml"}[c["ext"]]
        elif c["ext"] == "list":
            s["tonnikala.extensions"] = ["tk", ".xhtml"]
        config = Configurator(settings=s)
        config.include("tonnikala.pyramid")
        if c["paths"] == "directive":
            config.add_tonnikala_search_paths(*self.specs)
        elif c["paths"] == "late":
            for p in self.specs:
                config.add_tonnikala_search_paths(p)
        if c["reload"] == "directive":
            config.set_tonnikala_reload(plan["reload"])
        if c["l10n"] == "directive":
            config.set_tonnikala_l10n(plan["l10n"])
        if c["ext"] == "directive":
            config.add_tonnikala_extensions("tk", ".xhtml")

        def view(request):
            return request.environ["sim.value"]

        for i, (n, form) in enumerate(plan["views"]):
            config.add_route("v%d" % i, "/v/%d" % i)
            config.add_view(view, route_name="v%d" % i, renderer=self.ref(n, form))

        def before(event):
            request = event.get("request")
            me = self.me()
            if me in self.frames and self.frames[me] and self.frames[me][-1][0] is None:
                self.frames[me][-1] = (request, event, event.rendering_val)
            gt = request.environ.get("sim.gettext")
            if gt is not None:
                event["gettext"] = gt

        # renderers that the application keeps
        self.held = {}
        config.add_request_method(lambda request: request.environ["sim.rid"], "rid", property=True)
        config.add_subscriber(before, BeforeRender)
        self.app = config.make_wsgi_app()
        self.registry = config.registry
        from pyramid.renderers import RendererHelper

        for n, form in plan["views"]:
            ext = os.path.splitext(n)[1]
            if ext not in self.held:
                helper = RendererHelper(self.ref(n, form), registry=self.registry)
                self.held[ext] = helper, helper.renderer

    def me(self):
        return self.sim.cur.tid if self.sim.in_task() else -1

    def hook(self, op, path):
        if self.sim.cur is None:
            return
        me = self.sim.cur.tid
        if self.fault.get(me) == (path, op):
            del self.fault[me]
            self.hits[me] = self.hits.get(me, 0) + 1
            self.sim.fault("EIO_" + op)
            raise OSError(5, "Input/output error", path)

    # -- rendering by requests -----------------------------------------------------
    def template(self, op):
        return Page(self, op)

    def model_ctx(self, op, mp):
        ctx = c14.World.model_ctx(self, op, mp)
        ctx["renderer_name"] = op.get("rname") or self.ref(op["tmpl"], op["form"])
        ctx["request.rid"] = op["rid"]
        return ctx

    def value(self, op, ctx):
        if op["how"] == "fragment":
            ctx = {k: v for k, v in ctx.items() if k in op["given"] or k in ("t", "gettext")}
        if op.get("rname"):
            ctx = dict(ctx, renderer_name=op["rname"])
        k = op.get("kind")
        if k == "ordered":
            return collections.OrderedDict(ctx)
        if k == "proxy":
            return types.MappingProxyType(ctx)
        if k == "keys":
            return Keys(ctx)
        return ctx

    def respond(self, op, ctx):
        gt = None
        if op["how"] in ("request", "subrequest") and op["kind"] != "dict":
            # the translation function comes from the framework
            ctx = dict(ctx)
            gt = ctx.pop("gettext", None)
        value = self.value(op, ctx)
        stack = self.frames.setdefault(self.me(), [])
        self.sim.probe(op["how"])
        if op["how"] in ("request", "subrequest"):
            outer = stack[-1][0] if stack else None
            stack.append((None, None, None))
            try:
                v = self.env.plan["views"].index([op["tmpl"], op["form"]])
                return self.call(op["how"], outer, v, value, op["rid"], gt)
            finally:
                stack.pop()
        ref = self.ref(op["tmpl"], op["form"])
        import pyramid.renderers as pr

        if op["how"] == "direct":
            request = self.request("/", value, op["rid"], None)
            request.registry = self.registry
            request.invoke_subrequest = self.app.invoke_subrequest
            apply_request_extensions(request)
            helper, renderer = self.held[os.path.splitext(op["tmpl"])[1]]
            system = {"view": None, "renderer_name": ref, "renderer_info": helper, "context": None,
                      "request": request, "req": request}
            stack.append((request, system, value))
            try:
                return renderer(value, system)
            finally:
                stack.pop()
        request, system, values = stack[-1]
        if op["how"] == "render":
            return pr.render(ref, value, request=request)
        if op["how"] == "response":
            return pr.render_to_response(ref, value, request=request).text
        # the renderer of the page around, or a new one
        renderer = (system["renderer_info"].renderer if op["rid"] % 3 else
                    pr.RendererHelper(ref, registry=self.registry).renderer)
        if values is not None:
            # the values of the page around, for all of its fragments
            system = dict(system)
            system.update(values)
            stack[-1] = (request, system, None)
        return renderer.fragment(ref, value, system)

    def request(self, url, value, rid, gt):
        r = Request.blank(url)
        r.environ["sim.value"] = value
        r.environ["sim.rid"] = rid
        if gt is not None:
            r.environ["sim.gettext"] = gt
        return r

    def call(self, how, outer, view, value, rid, gt):
        r = self.request("/v/%d" % view, value, rid, gt)
        if how == "subrequest":
            return outer.invoke_subrequest(r, use_tweens=rid % 2 == 0).text
        out = []

        def start(status, headers, exc_info=None):
            out.append(status)

        body = b"".join(self.app(r.environ, start))
        if out != ["200 OK"]:
            raise Violation("wrong-status", "the response is %r: %r" % (out, body[:300]))
        return body.decode("utf-8")

    def check_failed(self, what, exc, p, want):
        # (the framework sets the context of an exception it passes on)
        if exc is not p.raised:
            raise Violation("wrong-exception", "%s raised %s: %s instead of %r, raised at %s" % (
                what, type(exc).__name__, exc, p.raised, want.boom))
        if self.sim.in_task():
            self.env.nontrivial = True

    # -- operations -------------------------------------------------------------------
    def do(self, op, where):
        k = op["op"]
        if k == "request":
            self.perform(op, where)
        elif k == "bad":
            self.bad(op, where)
        elif k == "io":
            self.io(op, where)
        elif k == "edit":
            self.edit(op)
        else:
            raise core.HarnessError("op %r" % (op,))

    def bad(self, op, where):
        value = {"none": None, "int": 7, "text": "some text", "list": [1, 2], "object": object()}[op["value"]]
        try:
            got = self.call("request", None, op["view"], value, 0, None)
        except ValueError:
            self.sim.probe("bad_value")
            self.env.nontrivial = True
            return
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except BaseException as e:
            raise Violation("wrong-error", "%s: a view returned %r, the request failed with %r" % (where, value, e))
        raise Violation("no-error", "%s: a view returned %r, the response is %r" % (where, value, got[:200]))

    def io(self, op, where):
        """A disk error while a page is loaded fails that request at most."""
        name, form = self.env.plan["views"][op["view"]]
        me = self.me()
        self.fault[me] = (self.path[name], op["at"])
        n0 = self.hits.get(me, 0)
        try:
            self.registry.tonnikala_renderer_factory.loader.load(self.ref(name, form))
        except OSError:
            if self.hits.get(me, 0) == n0:
                raise
            self.env.nontrivial = True
        self.fault.pop(me, None)

    def edit(self, op):
        n = op["name"]
        f = self.files[n]
        if f.get("ext"):
            body = [[b[0], b[1], b[2] + [["T", op["text"]]]] if b[0] == "block" else b for b in f["body"]]
        else:
            body = f["body"] + [["T", op["text"]]]
        f = dict(f, body=body)
        w = self.where[n]
        if op.get("earlier") and w and all(form == "plain" for m, form in self.env.plan["views"] if m == n):
            # in an earlier search path; what has been there changes too
            self.sim.probe("moved_earlier")
            self.write(w, n, "<html>not this one</html>")
            w = self.where[n] = w - 1
        self.write(w, n, tmpl.source(f))
        self.sim.fault("edit")
        self.env.nontrivial = True
        if self.env.plan["reload"]:
            self.files = dict(self.files, **{n: f})
        self.sim.sleep(op["dt"])

    def run(self):
        plan, sim = self.env.plan, self.sim
        self.env.measure = "t%d %s" % (len(plan["tasks"]), sorted(plan["config"].values()))
        loader = self.registry.tonnikala_renderer_factory.loader
        if plan["preload"]:
            for n, form in plan["views"]:
                loader.load(self.ref(n, form))
        left = [len(plan["tasks"])]
        for i, ops in enumerate(plan["tasks"]):
            def body(i=i, ops=ops):
                for j, op in enumerate(ops):
                    self.do(op, "task%d.%d" % (i, j))
                left[0] -= 1
                if not left[0] and plan["end"]:
                    for n, form in plan["views"]:
                        loader.load(self.ref(n, form))
                    for op in plan["end"]:
                        self.do(op, "end")
            sim.spawn("task%d" % i, body)
        sim.run()


def execute(env):
    World(env).run()
