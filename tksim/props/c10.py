"""C10: untrusted values can never inject markup."""
import re
from enum import IntEnum

from .. import core, renderlib as rl, tmpl
from ..core import Violation

ID = "C10"
RUNS = {"quick": 3000, "thorough": 100000}
REAL = ["tonnikala.loader", "tonnikala.runtime (C and Python buffer)", "markupsafe", "template compiler",
        "compiled templates"]
STUBS = ["thread scheduling", "locks", "clock", "disk (real files behind a fault seam, no faults here)",
         "context values (objects whose text changes with every conversion, fails, or starts another render)"]
RULE = ("1-3 tasks of renders whose context holds hostile values: strings, string subclasses and objects whose text "
        "alternates between harmless and hostile from one conversion to the next, objects with an HTML form, plain "
        "lists, bytes, numbers, values whose conversion raises or renders another page; a run is non-trivial when "
        "hostile text reached the page; checked: the whole output, every value exactly once escaped or, where marked "
        "safe, not at all")

# what one conversion of a value looks like in the page
ESCAPED = re.compile(r"\(q (\w+)\.\d+ \)|&lt;q (\w+)\.\d+ &amp;(?:&#34;|&quot;)(?:&#39;|&#x27;|&apos;)[é☃\U0001f600]?&gt;")
RAW = re.compile(r"<q (\w+)\.\d+ &\"'[é☃\U0001f600]?>")
MARK = re.compile("[§¤◊]")
KINDS = ["str", "str", "str", "sub", "exc", "int", "float", "enum", "list", "tuple", "dict", "html", "htmlsub", "both", "render", "late_render"]
TAIL = ["", "é", "☃", "\U0001f600"]


class Src(object):
    """Makes the text of each conversion."""

    def __init__(self, spec, world):
        self.name, self.kind, self.tail, self.period = spec[3], spec[1], spec[4], spec[5]
        self.n = 0
        self.world = world
        self.op = spec[6] if len(spec) > 6 else None

    def text(self, harmless=True):
        self.n += 1
        s = core.ACTIVE
        if s is not None:
            s.point("N")
        if self.op is not None and self.n == 1:
            self.world.sim.probe("conversion_renders")
            self.world.perform(self.op, "conv-" + self.name)
        self.world.sim.probe("conversion")
        if self.n > 1:
            self.world.sim.probe("converted_again")
        if harmless and self.n % self.period:
            return "(q %s.%d )" % (self.name, self.n)
        return "<q %s.%d &\"'%s>" % (self.name, self.n, TAIL[self.tail])


def make(spec, world):
    kind = spec[1]
    if kind == "bytes":
        return spec[2].encode()
    src = Src(spec, world)
    if kind in ("str", "render", "late_render"):
        class V(object):
            def __str__(self):
                return src.text()
    elif kind == "sub":
        class V(str):
            def __str__(self):
                return src.text()
        return V(src.text())
    elif kind in ("int", "float"):
        class V(int if kind == "int" else float):
            def __str__(self):
                return src.text()
        return V(src.period)
    elif kind in ("list", "tuple", "dict"):
        class V({"list": list, "tuple": tuple, "dict": dict}[kind]):
            def __str__(self):
                return src.text()
        # (true)
        return V({0: "<"} if kind == "dict" else ["<"])
    elif kind == "enum":
        V = IntEnum("V", "one two", type=None)
        V.__str__ = lambda self: src.text()
        return V.two
    elif kind == "exc":
        class V(Exception):
            def __str__(self):
                return src.text()
    elif kind == "html":
        class V(object):
            def __html__(self):
                return src.text(False)

            def __str__(self):
                return src.text(False)
    elif kind == "htmlsub":
        class V(str):
            def __html__(self):
                return src.text(False)

            def __str__(self):
                return src.text(False)
        return V(src.text(False))
    elif kind == "both":
        from markupsafe import Markup

        class V(object):
            def __html__(self):
                return Markup(src.text(False))

            def __str__(self):
                return src.text(False)
    else:
        raise core.HarnessError(kind)
    return V()


class MV(tmpl.ModelObj):
    def __init__(self, spec):
        self.spec = spec

    def convert(self):
        if self.spec[1] in ("html", "htmlsub", "both"):
            return tmpl.Raw("¤%s¤" % self.spec[3])
        return tmpl.Raw("§%s§" % self.spec[3])

    def plain(self):
        return "§%s§" % self.spec[3]

    def raw(self):
        # marked safe: whatever the value said
        return "¤%s¤" % self.spec[3]


def hostile(rng, name, files, env, depth=0):
    r = rng.random()
    if r < 0.1:
        return ["j", rng.choice([0, -1, 2.5, 10 ** 30, ["<a>", "&'\""], ["<", ["\"'"]], {"<k>": "'&\""},
                                 None, True, False])]
    if r < 0.16:
        return ["o", "bytes", rng.choice(["<b>&", "'\"", "&lt;"]), name]
    if r < 0.28:
        return ["s", rng.choice(["<b>", "&amp;", "\"'", "<" * 40, "a&b<c>d\"e'f", "☃<", "\U0001f600&", "&#34;", "",
                                 "plain", "\udc80<", "\x00<"])]
    if r < 0.33:
        return ["m", "<i>&amp;%s</i>" % name]
    kind = rng.choice(KINDS)
    v = ["o", kind, "", name, rng.randrange(4), rng.choice([1, 1, 2, 2, 3])]
    if kind in ("render", "late_render"):
        if depth:
            v[1] = "str"
        else:
            v.append(draw(rng, files, env, name + "r", 1))
    return v


def draw(rng, files, env, tag, depth=0):
    op = rl.draw_op(rng, files, env, tag, nest_p=0 if depth else 0.15, depth=depth)

    def fill(o, d):
        n = 0
        for v, k in env.items():
            if k == "s" and rng.random() < 0.85:
                n += 1
                o["ctx"][v] = hostile(rng, "%s%d" % (tag.replace("_", ""), n), files, env, d)
            elif k == "l":
                o["ctx"][v] = ["l", [hostile(rng, "%sl%d" % (tag.replace("_", ""), i), files, env, 1)
                                     for i in range(rng.randint(0, 3))]]
        for a in (o.get("nest") or {}).values():
            if "op" in a:
                fill(a["op"], d + 1)

    fill(op, depth)
    if not depth and rng.random() < 0.15:
        occ = []
        try:
            occ = rl.occurrences(files, op["tmpl"], {k: ["s", "x"] if v == "s" else op["ctx"][k]
                                                     for k, v in env.items()}, op["func"])
        except tmpl.Boom:
            pass
        kinds = rl.probe_kinds(files)
        occ = [o for o in occ if kinds.get(o[0]) == "text"]
        if occ:
            k, n = rng.choice(occ)
            op.setdefault("nest", {})["%d:%d" % (k, n)] = rl.draw_failure(rng, "text", tag, None, kinds.get("gj"))
    return op


def generate(rng, tier):
    g = tmpl.Gen(rng, feat={"lit": True, "tal": rng.random() < 0.1, "plus": False, "raw": True, "formcalls": False}, maxdepth=rng.choice([2, 3, 3, 4]))
    env = g.context_vars()
    files = g.fileset(env)
    plan = {"files": files, "preload": rng.random() < 0.9, "tasks": []}
    i = 0
    for t in range(rng.choice([1, 1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            i += 1
            ops.append(draw(rng, files, env, "r%d_" % i))
        plan["tasks"].append(ops)
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for p in rl.shrink_ops(plan):
        yield p


class Model(tmpl.Model):
    def text(self, v):
        t = tmpl.Model.text(self, v)
        # text made of a value, then marked safe
        return t if isinstance(v, tmpl.Raw) else t.replace("§", "¤")


class World(rl.World):
    def new_model(self, op, mp):
        return Model(self.files, mp)

    def new_obj(self, spec, probe):
        return make(spec, self)

    def new_mobj(self, spec, mprobe):
        return spec[2].encode() if spec[1] == "bytes" else MV(spec)

    def norm(self, text, want):
        t = ESCAPED.sub(lambda m: "◊%s◊" % m.group(1) if m.group(1) else "§%s§" % m.group(2), text)
        t = RAW.sub(lambda m: "¤%s¤" % m.group(1), t)
        # spellings of the same character reference
        t = t.replace("&quot;", "&#34;").replace("&#x27;", "&#39;").replace("&apos;", "&#39;")
        if t != text:
            self.env.nontrivial = True
        # harmless text looks the same, escaped or not
        marks = iter(MARK.findall(want))
        return MARK.sub(lambda m: (next(marks, "◊") if m.group(0) == "◊" else next(marks, "") and m.group(0)) or m.group(0), t)


def execute(env):
    w = World(env, check_log=False)
    w.check_exc = False
    w.run_tasks(env.plan["preload"])
