"""C14: translations come from the render's own context."""
import functools

from .. import core, renderlib as rl, tmpl
from ..core import Violation

ID = "C14"
RUNS = {"quick": 2500, "thorough": 100000}
REAL = ["template compiler", "tonnikala.loader", "tonnikala.runtime (C and Python buffer)", "compiled templates",
        "tonnikala's own gettext fallback"]
STUBS = ["thread scheduling", "locks", "clock", "disk (real files behind a fault seam, no faults here)",
         "message catalogues (the translation function of each render, logged)"]
RULE = ("1-3 tasks of renders of generated pages whose static texts and attributes are translatable, each with its own "
        "language and kind of translation function (function, bound method, partial, callable object), results that "
        "need escaping, are marked safe, have an HTML form, are empty or the message itself; the language switches in "
        "mid-page from an expression or from the translation function, translation functions fail or render other "
        "pages; the text of every page and the log of every lookup are compared with the model's; a run is "
        "non-trivial when renders with different languages were nested or interleaved, or a language was switched")

LANGS = ["fi", "sv", "<&>", "é\"'", "same", "safe", "html", "empty"]


def words(lang, msg):
    """What ``lang`` has for ``msg``: (kind, text)."""
    if lang in ("same", None):
        return "s", msg
    if lang == "empty":
        return "s", ""
    if lang == "safe":
        return "m", "<i>%s</i>&amp;" % msg.replace("<", "[")
    if lang == "html":
        return "h", "<b>%s</b>" % msg.replace("<", "[")
    return "s", "%s:%s" % (lang, msg)


class Html(object):
    def __init__(self, text, probe):
        self.text, self.probe = text, probe

    def __html__(self):
        self.probe.note("h")
        return self.text

    def __str__(self):
        return self.text


class MHtml(tmpl.ModelObj):
    def __init__(self, text, probe):
        self.t, self.probe = text, probe

    def convert(self):
        self.probe.log.append("h")
        return tmpl.Raw(self.t)

    def plain(self):
        return self.t




def lookups(files, op, trans):
    """[n...] lookups of a render that nothing disturbs."""
    mp = rl.ModelProbe()
    seen = []

    def gt(msg):
        seen.append(msg)
        return tmpl.Raw(msg)

    m = tmpl.Model(files, mp, gettext=gt, translatable=trans)
    ctx = {k: tmpl.model_value(v) for k, v in op["ctx"].items()}
    try:
        m.render(op["tmpl"], ctx, op["func"])
    except tmpl.Boom:
        pass
    return len(seen)


def decorate(rng, files, env, op, tag, trans, langs, depth=0):
    op["lang"] = rng.choice(langs)
    op["fn"] = rng.choice(["def", "method", "partial", "object"])
    op["string"] = rng.random() < 0.1
    nest = op.setdefault("nest", {})
    for a in nest.values():
        if "op" in a:
            decorate(rng, files, env, a["op"], tag + "n", trans, langs, depth + 1)
    if op["lang"] is None:
        return
    if rng.random() < 0.4:
        occ = []
        try:
            occ = rl.occurrences(files, op["tmpl"], op["ctx"], op["func"])
        except tmpl.Boom:
            pass
        for _ in range(rng.randint(1, 2)):
            if occ:
                k, n = rng.choice(occ)
                nest.setdefault("%d:%d" % (k, n), {"set": rng.choice([x for x in langs if x])})
    n = lookups(files, op, trans)
    if n and depth < 3 and rng.random() < 0.45:
        key = "-1:%d" % rng.randint(1, n)
        r = rng.random()
        if r < 0.3:
            nest[key] = dict(rl.draw_failure(rng, None, tag), mode="call")
        elif r < 0.6:
            nest[key] = {"set": rng.choice([x for x in langs if x])}
        else:
            o = rl.draw_op(rng, files, env, tag + "g", nest_p=0.1, fail_p=0.2, depth=1)
            decorate(rng, files, env, o, tag + "g", trans, langs, depth + 1)
            nest[key] = {"op": o, "catch": rng.random() < 0.6}


def generate(rng, tier):
    trans = rng.random() < 0.85
    g = tmpl.Gen(rng, feat={"te": True, "gt": True, "plus": False, "lit": False, "raw": True},
                 maxdepth=rng.choice([2, 3, 3, 4]))
    env = g.context_vars()
    files = g.fileset(env)
    plan = {"files": files, "trans": trans, "preload": rng.random() < 0.85, "tasks": []}
    langs = rng.sample(LANGS, rng.choice([2, 3, 4])) + ([None] if rng.random() < 0.4 else [])
    i = 0
    for t in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            i += 1
            op = rl.draw_op(rng, files, env, "r%d_" % i, nest_p=0.3, fail_p=0.12)

            decorate(rng, files, env, op, "r%d_" % i, trans, langs)

            ops.append(op)
        plan["tasks"].append(ops)
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, msg):
        return self.f(msg)

    def method(self, msg):
        return self.f(msg)


class World(rl.World):
    def __init__(self, env):
        rl.World.__init__(self, env, translatable=bool(env.plan["trans"]))

    # model
    def new_model(self, op, mp):
        return tmpl.Model(self.files, mp, gettext=self.model_gettext(op, mp), translatable=bool(self.env.plan["trans"]))

    def model_gettext(self, op, mp):
        if op["lang"] is None:
            return None
        mp.lang = op["lang"]

        def gettext(msg):
            mp.log.append("g:" + msg)
            n = mp.occ[-1] = mp.occ.get(-1, 0) + 1
            a = mp.actions.get("-1:%d" % n)
            if a is not None:
                mp.on_action(a, -1, n, None)
            k, text = words(mp.lang, msg)
            return tmpl.Raw(text) if k == "m" else MHtml(text, mp) if k == "h" else text

        return gettext

    def model_action(self, a, k, n, v, mp):
        if "set" in a:
            mp.lang = a["set"]
            return NotImplemented
        return rl.World.model_action(self, a, k, n, v, mp)

    # reality
    def real_ctx(self, op, p):
        ctx = rl.World.real_ctx(self, op, p)
        if op["lang"] is None:
            return ctx
        p.lang = op["lang"]

        def gettext(msg):
            if type(msg) is not str:
                raise Violation("wrong-lookup", "the translation function was called with %r" % (msg,))
            p.note("g:" + msg)
            self.sim.probe("lookup")
            n = p.occ[-1] = p.occ.get(-1, 0) + 1
            a = p.actions.get("-1:%d" % n)
            if a is not None:
                p.on_action(a, -1, n, None)
            k, text = words(p.lang, msg)
            if k == "m":
                from markupsafe import Markup
                return Markup(text)
            return Html(text, p) if k == "h" else text

        ctx["gettext"] = {"def": gettext, "method": Callable(gettext).method,
                          "partial": functools.partial(gettext), "object": Callable(gettext)}[op["fn"]]
        return ctx

    def real_action(self, a, k, n, v, p, where):
        if "set" in a:
            self.sim.fault("language_switch")
            self.env.nontrivial = True
            p.lang = a["set"]
            return NotImplemented
        return rl.World.real_action(self, a, k, n, v, p, where)


def execute(env):
    w = World(env)
    w.run_tasks(env.plan["preload"])
