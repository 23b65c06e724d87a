"""C19: message extraction finds every message rendering will look up, or fails."""
import errno
import io
import os
import re

from .. import boot, core, renderlib as rl, tmpl, worker
from ..core import Violation

ID = "C19"
RUNS = {"quick": 1400, "thorough": 80000}
REAL = ["tonnikala.i18n", "lingua's Python extractor", "parser", "template compiler", "tonnikala.loader",
        "compiled templates", "tonnikala.runtime (C and Python buffer)"]
STUBS = ["the file objects given to the extractor (chunked, failing, interrupted) and the disk under named files",
         "thread scheduling", "locks", "clock", "asynchronous exceptions", "the translation functions (logging)"]
RULE = ("1-3 tasks extract the messages of generated templates and render them, in any order: from named files on a disk "
        "that gives them in pieces of any size, from raw, buffered, text and plain file objects, by the extractor and "
        "by Babel's entry point, with generators that are consumed in turns or dropped half-way; reads fail at any "
        "point, extractions are interrupted at any function entry or read, inputs are not UTF-8 or not a template; "
        "every static text and literal message of the templates is unique; checked: every message that any render of "
        "the run looked up is in every completed extraction of its file, and an extraction whose input failed, was "
        "broken or that was interrupted does not end normally; non-trivial: a fault struck or input came in pieces")
ASSUMPTIONS = ["file objects signal the end of input only at the end (Python's file protocol)"]

TOKEN = re.compile(r"q(\d+)z")
ROUTES = ["path", "path", "bytes", "text", "raw", "buffered", "wrapper", "plain"]
ERRNOS = [errno.EIO, errno.EACCES, errno.ENOMEM, errno.ESTALE, errno.EISDIR, errno.ENOENT, errno.EMFILE]
TEXTS = ["Hello", "a & b", "1 < 2 > 0", "\"q\" 's'", "x\n  y", "x\r\n  y", "é☃ text", "cost: 5 $ a", "$x ${y}", "$$", "𝄞",
         "a\u00a0b", "%s %d {x}", "\\n", "end.\u2028next", "x\ty", "w" * 300]


class Gen(tmpl.Gen):
    """Every static text and every message carries a token of its own."""

    def token(self):
        self.ntok = getattr(self, "ntok", 0) + 1
        return "q%dz" % self.ntok

    def text(self, lo=1, hi=8):
        t = tmpl.Gen.text(self, lo, hi)
        return t + self.token() if t.strip() else t

    def gt(self):
        rng = self.rng
        m = rng.choice(["%s", "%s", "a %s", "<%s>&", "é%s", "it's %s", "%s \"d\"", "%%(n)s %s", "%s\n x", "☃ %s"]) % self.token()
        r = rng.random()
        if r < 0.5:
            return ["gt", m]
        cut = rng.randint(0, len(m))
        src = rng.choice([
            "gettext( %s )" % repr(m), "gettext(%s,)" % repr(m), "gettext(u%s)" % repr(m),
            "gettext(%s %s)" % (repr(m[:cut]), repr(m[cut:])),
            "gettext(%s)" % ascii(m), "gettext ( %s)" % repr(m),
            "str(gettext(%s))" % repr(m), "(gettext(%s) + '')" % repr(m), "[gettext(%s)][0]" % repr(m),
            "{'k': gettext(%s)}['k']" % repr(m), "(lambda: gettext(%s))()" % repr(m),
            "', '.join([gettext(%s) for unused in (1, 2)])" % repr(m), "(gettext(%s) if True else '')" % repr(m),
            "dict(a=gettext(%s))['a']" % repr(m), "gettext(%s).strip()" % repr(m),
            "(not gettext(%s) or 'x')" % repr(m), "'%%s!' %% gettext(%s)" % repr(m)])
        return ["gt", m, src]

    def strexpr(self, env, p=0.7):
        if self.rng.random() < 0.12:
            return self.gt()
        return tmpl.Gen.strexpr(self, env, p)

    def cond(self, env, depth=0):
        if self.rng.random() < 0.12:
            return self.gt()
        return tmpl.Gen.cond(self, env, depth)

    def outexpr(self, env):
        e = tmpl.Gen.outexpr(self, env)
        return self.gt() if e[0] == "gt" else e

    def fix(self, x):
        """The fixed texts of the generator get tokens too."""
        rng = self.rng
        if isinstance(x, dict):
            for v in x.values():
                self.fix(v)
        elif isinstance(x, list):
            if len(x) == 2 and x[0] == "TE":
                t = rng.choice(TEXTS)
                i = rng.choice([0, len(t)])
                x[1] = (rng.choice(["", " ", "\n ", "\r\n", "\u00a0"]) + t[:i] + self.token() + t[i:] +
                        rng.choice(["", " ", "\n", "\r\n", "\t", "\u2003"]))
                return
            if len(x) == 2 and isinstance(x[0], str) and x[0] in tmpl.TR_ATTRS and isinstance(x[1], list):
                v = x[1]
                if v[0] == "c" and v[1].strip():
                    v[1] = v[1] + self.token()
            if len(x) == 3 and x[0] == "py":
                self.plain(x[2])
            for v in x:
                self.fix(v)

    def plain(self, x):
        """<?python ?> code ends at the first >."""
        if isinstance(x, list):
            if x and x[0] == "gt":
                x[1:] = [s.replace(">", "]") for s in x[1:]]
            for v in x:
                self.plain(v)


def corruptions(rng, src):
    """(what, bytes) that is no valid template."""
    end = src.rindex("</")
    what = rng.choice(["utf8", "utf8cut", "endtag", "control", "attr", "missing", "unclosed", "expr", "after"])
    if what == "utf8":
        return what, src[:end].encode() + b"caf\xe9 au lait" + src[end:].encode()
    if what == "utf8cut":
        return what, src.encode() + b"\xe2\x98"
    bad = {"endtag": "</blink>", "control": "<py:nosuch>x</py:nosuch>", "attr": "<p py:nosuch=\"1\">x</p>",
           "missing": "<py:if>x</py:if>", "unclosed": "<blink>", "expr": "${unclosed["}
    if what == "after":
        return what, (src + "<p>more</p>text").encode()
    return what, (src[:end] + bad[what] + src[end:]).encode()


def draw_fault(rng):
    r = rng.random()
    if r < 0.5:
        return {"kind": "io", "at": rng.choice(["open", "read", "read", "read"]), "nth": rng.choice([1, 1, 2, 3, 5, 9]),
                "errno": rng.choice(ERRNOS)}
    if r < 0.8:
        return {"kind": "inject", "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]),
                "after": core.draw_interrupt(rng, 3.2, 160)}
    return {"kind": "bad", "seed": rng.randrange(1 << 30)}


def draw_extract(rng, names, faulty=0.35):
    op = {"op": "extract", "name": rng.choice(names), "route": rng.choice(ROUTES), "babel": rng.random() < 0.4,
          "chunk": rng.choice([None, 1, 2, 3, 7, 64, 1000, 8191, 8192]), "who": rng.choice([None, 0, 0, 1])}
    r = rng.random()
    if r < faulty:
        op["fault"] = draw_fault(rng)
    elif r < faulty + 0.1:
        op["drop"] = rng.randint(0, 5)
    elif r < faulty + 0.2:
        op["with"] = {"name": rng.choice(names), "route": rng.choice(ROUTES), "babel": rng.random() < 0.4, "chunk": None,
                      "who": rng.choice([None, 0, 1]), "turns": rng.randint(1, 3)}
    return op


def generate(rng, tier):
    g = Gen(rng, feat={"te": True, "gt": True, "plus": False, "lit": rng.random() < 0.5, "raw": True,
                       "large": 0.03},
            maxdepth=rng.choice([2, 3, 3, 4]), probes=rng.random() < 0.5)
    env = g.context_vars()
    files = g.fileset(env)
    g.fix(files)
    if rng.random() < 0.1:
        # larger than any buffer
        n = rng.choice(sorted(files))
        f = files[n]
        if not f.get("ext"):
            f["body"].append(["TE", "long %s " % g.token() + "é☃" * rng.choice([1500, 5000]) + g.token()])
    plan = {"files": files, "tasks": [], "last": []}
    names = sorted(files)
    pages = [n for n in names if not n.startswith("lib")] or names
    for t in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.6:
                ops.append(draw_extract(rng, names))
            else:
                ops.append({"op": "render", "name": rng.choice(pages), "ctx": tmpl.draw_context(rng, env, "c")})
        plan["tasks"].append(ops)
    # at the end every file is extracted and every page rendered
    for n in names:
        plan["last"].append(draw_extract(rng, [n], 0.0))
    for n in pages:
        for b in (True, False):
            ctx = tmpl.draw_context(rng, env, "c")
            for v, k in env.items():
                if k == "b":
                    ctx[v] = ["b", b]
                elif k == "l" and b:
                    ctx[v] = ["l", [["s", "i"]]]
            plan["last"].append({"op": "render", "name": n, "ctx": ctx})
    return plan


def shrinks(plan):
    for p in rl.shrink_plan(plan):
        yield p
    for i in range(len(plan["last"])):
        q = dict(plan, last=plan["last"][:i] + plan["last"][i + 1:])
        yield q


class Raw(io.RawIOBase):
    """A file that arrives in pieces and may fail."""

    def __init__(self, world, data, chunk, fault):
        self.w, self.data, self.pos, self.chunk, self.fault, self.reads = world, data, 0, chunk, fault, 0

    def readable(self):
        return True

    def touch(self):
        self.reads += 1
        self.w.sim.point("F")
        f = self.fault
        if f is not None and self.reads >= f["nth"]:
            f["struck"] = True
            self.w.sim.fault("read_error")
            raise OSError(f["errno"], os.strerror(f["errno"]))

    def readinto(self, b):
        self.touch()
        n = min(len(b), len(self.data) - self.pos)
        if self.chunk:
            n = min(n, self.chunk)
            self.w.sim.fault("short_read")
            self.w.env.nontrivial = True
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Plain(object):
    """No more than a read()."""

    def __init__(self, raw, text):
        self.raw, self.text = raw, text

    def read(self, n=-1):
        if n is None or n < 0:
            d = self.raw.readall()
        else:
            d = self.raw.read(n)
        return d.decode("utf-8") if self.text else d


def keep_newlines(raw):
    return io.TextIOWrapper(io.BufferedReader(raw), encoding="utf-8", newline="")


class World(object):
    def __init__(self, env):
        from tonnikala.loader import FileLoader
        from tonnikala import i18n

        self.env, self.sim = env, env.sim
        self.i18n = i18n
        self.files = env.plan["files"]
        self.dir = rl.write_files(env.root, self.files)
        self.src = {n: tmpl.source(f) for n, f in self.files.items()}
        self.owner = {}
        for n, s in self.src.items():
            for t in TOKEN.findall(s):
                # (None: in several files)
                self.owner[t] = n if self.owner.get(t, n) == n else None
        self.loader = FileLoader([self.dir], translatable=True)
        self.extractors = {}
        self.looked = {}        # message -> page that looked it up
        self.done = []          # (what, file, set of messages)
        self.fault = {}         # (task, path) -> fault
        self.chunks = {}
        self.nfile = 0
        boot.fs.hook = self.hook
        boot.fs.shortread = self.shortread

    def hook(self, op, path):
        if self.sim.cur is None:
            return
        f = self.fault.get((self.sim.cur.tid, path))
        if f is None or f["at"] != op:
            return
        f["seen"] = f.get("seen", 0) + 1
        if op == "open" or f["seen"] >= f["nth"]:
            f["struck"] = True
            self.sim.fault(op + "_error")
            raise OSError(f["errno"], os.strerror(f["errno"]), path)

    def shortread(self, path):
        if self.sim.cur is None:
            return None
        c = self.chunks.get((self.sim.cur.tid, path))
        if c:
            self.sim.fault("short_read")
            self.env.nontrivial = True
        return c

    # -- rendering ----------------------------------------------------------
    def render(self, op, where):
        name = op["name"]
        p = rl.Probe()
        p.on_action = None

        def gettext(msg):
            self.looked.setdefault(str(msg), name)
            self.sim.probe("lookup")
            self.sim.point("p")
            return msg

        ctx = {k: tmpl.real_value(v) for k, v in op["ctx"].items()}
        ctx["t"] = p
        ctx["gettext"] = gettext
        try:
            self.loader.load(name).render(ctx)
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except Exception as e:
            self.sim.log("render failed", name, type(e).__name__)
        self.sim.log("render", where, name, len(self.looked))

    # -- extraction ---------------------------------------------------------
    def extractor(self, op):
        """A new one, or one that tasks share (lingua uses one for all files)."""
        if op["who"] is None:
            return self.i18n.TonnikalaExtractor()
        if op["who"] not in self.extractors:
            self.extractors[op["who"]] = self.i18n.TonnikalaExtractor()
        return self.extractors[op["who"]]

    def start(self, op, fault=None, data=None):
        """(generator of messages, cleanup)"""
        name, route = op["name"], op["route"]
        bad = data is not None
        if data is None:
            data = self.src[name].encode("utf-8")
        if bad and route == "text":
            route = "wrapper"
        if route == "path" and op["babel"]:
            route = "bytes" if fault is None else "buffered"
        if fault is not None and fault["kind"] == "io" and route in ("bytes", "text"):
            route = "raw"
        tid = self.sim.cur.tid
        if route == "path":
            path = os.path.join(self.dir, name)
            if bad:
                self.nfile += 1
                path = os.path.join(self.env.root, "bad%d.tk" % self.nfile)
                with boot.real.open(path, "wb") as f:
                    f.write(data)
            if fault is not None and fault["kind"] == "io":
                self.fault[tid, path] = fault
            self.chunks[tid, path] = op["chunk"]
            return self.extractor(op)(path, self.i18n.Options())
        if route == "bytes":
            f = io.BytesIO(data)
        elif route == "text":
            f = io.StringIO(data.decode("utf-8"), newline="")
        else:
            raw = Raw(self, data, op["chunk"], fault if fault is not None and fault["kind"] == "io" else None)
            if route == "raw":
                f = raw
            elif route == "buffered":
                f = io.BufferedReader(raw)
            elif route == "wrapper":
                f = keep_newlines(raw)
            else:
                f = Plain(raw, (op["chunk"] or 0) % 2 == 1)
        if op["babel"]:
            return self.i18n.extract_tonnikala(f, ["gettext"], [], {})
        return self.extractor(op)(name, self.i18n.Options(), fileobj=f)

    @staticmethod
    def msgid(m, babel):
        if babel:
            return m[2][-1] if isinstance(m[2], tuple) else m[2]
        return m.msgid

    def extract(self, op, where):
        sim, name = self.sim, op["name"]
        what = "%s: extraction of %s (%s%s)" % (where, name, op["route"], ", Babel" if op["babel"] else "")
        fault = dict(op["fault"]) if op.get("fault") else None
        data, injected, me = None, [], sim.cur
        if fault is not None and fault["kind"] == "bad":
            import random

            rng = random.Random(fault["seed"])
            kind, data = corruptions(rng, self.src[name])
            what += " with its input made invalid (%s)" % kind
            sim.fault("invalid_" + kind)
        if fault is not None and fault["kind"] == "inject":
            def factory():
                e = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[fault["exc"]]("simulated")
                injected.append(e)
                return e
            self.sim.interrupt(fault["after"], factory)
        found, exc, other, whole = set(), None, None, True
        try:
            it = iter(self.start(op, fault, data))
            if op.get("with"):
                other = [op["with"], iter(self.start(op["with"])), set(), False]
            n = 0
            for m in it:
                found.add(self.msgid(m, op["babel"]))
                sim.point("p")
                n += 1
                if op.get("drop") is not None and n > op["drop"]:
                    sim.fault("dropped")
                    whole = False
                    break
                if other is not None and not other[3]:
                    for _ in range(op["with"]["turns"]):
                        self.turn(other)
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except BaseException as e:
            exc = e
        self.sim.no_interrupt()
        for d in (self.fault, self.chunks):
            for k in [k for k in d if k[0] == me.tid]:
                del d[k]
        sim.log("extract", where, name, len(found), type(exc).__name__)
        expect = bool(injected) or data is not None or fault is not None and fault.get("struck")
        if expect:
            self.env.nontrivial = True
            if exc is None and whole:
                raise Violation("failure-hidden", "%s ended normally with %d messages although %s" % (
                    what, len(found), "it was interrupted by %r" % injected[0] if injected else
                    "the template is invalid" if data is not None else
                    "reading failed (%s)" % errno.errorcode[fault["errno"]]))
            if injected and exc is not injected[0]:
                raise Violation("interrupt-lost", "%s was interrupted by %r and raised %r" % (what, injected[0], exc))
            return
        if exc is not None:
            raise Violation("extraction-failed", "%s raised %s: %s" % (what, type(exc).__name__, exc))
        if whole:
            self.done.append((what, name, found))
        if other is not None:
            while not other[3]:
                self.turn(other)
            self.done.append(("%s: extraction of %s in turns with another" % (where, other[0]["name"]),
                              other[0]["name"], other[2]))

    def turn(self, other):
        try:
            m = next(other[1])
        except StopIteration:
            other[3] = True
            return
        other[2].add(self.msgid(m, other[0]["babel"]))

    def do(self, op, where):
        if op["op"] == "render":
            self.render(op, where)
        else:
            self.extract(op, where)

    def run(self):
        sim = self.sim
        for i, ops in enumerate(self.env.plan["tasks"]):
            def body(i=i, ops=ops):
                for j, op in enumerate(ops):
                    self.do(op, "task%d.%d" % (i, j))
            sim.spawn("task%d" % i, body)
        sim.run()

        def last():
            for j, op in enumerate(self.env.plan["last"]):
                self.do(op, "last.%d" % j)
        sim.spawn("last", last)
        sim.run()
        self.check()

    def check(self):
        everything = set()
        for what, name, found in self.done:
            everything |= found
        complete = {name for what, name, found in self.done} == set(self.files)
        for msg, page in sorted(self.looked.items()):
            owners = {self.owner.get(t) for t in TOKEN.findall(msg)}
            if len(owners) == 1 and None not in owners:
                n = owners.pop()
                for what, name, found in self.done:
                    if name == n and msg not in found:
                        raise Violation("message-missed", "%s did not find %r, which rendering %s looks up" % (
                            what, msg, page))
            elif complete and msg not in everything:
                raise Violation("message-missed", "no extraction found %r, which rendering %s looks up" % (msg, page))


def setup():
    import tonnikala.i18n  # noqa


def draw_sched(rng):
    s = worker.default_sched(rng, est=3000, fine_p=0.1, deep_p=0.7)
    s["budget"] = 20_000_000       # (templates of 100 kB)
    return s


def execute(env):
    World(env).run()
