"""Histories of template files, loads, clocks and faults, and their oracle."""
import hashlib
import json
import os
import re

from . import boot, core, renderlib as rl, tmpl
from .core import NoPreempt, Violation

W = 0.5                 # a load may show what was current this long before it
FUZZ = 1e-6
MARK = re.compile(r"\[\[(\d+):(\d+)\]\]")
MT0 = 1_600_000_000

# name -> (extends, imports)
SHAPES = {
    "base.tk": (None, []),
    "child.tk": ("base.tk", []),
    "grand.tk": ("child.tk", []),
    "sub/lib.tk": (None, []),
    "user.tk": (None, ["sub/lib.tk"]),
    "cu.tk": ("base.tk", ["sub/lib.tk"]),
    "page.tk": (None, []),
    "page2.tk": (None, []),
}
ORDER = sorted(SHAPES)


def draw_names(rng):
    names = {"base.tk", "child.tk", "page.tk"}
    if rng.random() < 0.6:
        names |= {"sub/lib.tk", "user.tk"}
        if rng.random() < 0.5:
            names.add("cu.tk")
    if rng.random() < 0.5:
        names.add("grand.tk")
    if rng.random() < 0.4:
        names.add("page2.tk")
    return sorted(names)


def make_file(name, vid, style):
    """Version ``vid`` of a file; ``style`` varies everything else."""
    i = ORDER.index(name)
    mark = "[[%d:%d]]" % (i, vid)
    ext, imports = SHAPES[name]
    body = []
    e = ["E", ["v", "s0"]]
    styles = {0: [], 1: [["T", "é☃"]], 2: [["el", "p", [["title", ["x", ["v", "s0"]]]], {}, [e]]],
             3: [["T", "x" * 9000]], 4: [["if", ["v", "b0"], [["T", "yes"]]]],
             5: [["for", "q", ["L", [["c", "1"], ["v", "s0"]]], [["E", ["v", "q"]]]]],
             6: [["el", "b", [["alt", ["m", ["a ", ["v", "s0"]]]]], {"if": ["c", 1], "strip": ["v", "b0"]}, [e]],
                 ["cm", "note"]],
             7: [["with", [["w", ["v", "s0"]]], [["E", ["v", "w"]], ["TR", "line\nline"], ["TE", "<&é"]]],
                 ["if", ["not", ["c", 0]], [["T", "1"]]]],
             8: [["el", "em", [], {"attrs": ["dict", [["title", ["v", "s0"]]]], "for": ["r", ["L", [["c", "x"]]]],
                                   "content": ["lit", ["v", "r"]]}, []],
                 ["raw", "script", [["T", "var x;"]]], ["E", ["fs", ["{", ["v", "s0"]]]]]}
    extra = styles[style % 9] + (styles[style // 9 % 9] if style // 9 % 9 > 5 else [])
    defs = []
    if ext is None:
        body = [["T", mark]] + extra + [e]
        if name == "base.tk":
            body += [["block", "a", [["T", "(base a)"]]], ["T", " "], ["block", "b", [["T", "(base b)"]]],
                     ["T", " "], ["block", "c", [["T", "(base c)"]]]]
        if name == "sub/lib.tk":
            defs = [["def", "fun", ["x"], [["T", mark], ["E", ["v", "x"]]] + extra]]
    else:
        blk = {"child.tk": "a", "grand.tk": "b", "cu.tk": "a"}[name]
        body = [["block", blk, [["T", mark]] + extra + [e]]]
        if style % 5 == 4 and name != "grand.tk":
            body.append(["block", "c", [["T", "(c of %s)" % mark.strip("[]").replace(":", "-")]]])
    if imports:
        use = ["E", ["at", "lib", "fun", [["v", "s0"]]]]
        if ext is None:
            body.append(use)
        else:
            body[0][2].append(use)
    return {"ext": ext, "imports": [[h, "lib"] for h in imports], "defs": defs, "body": body}


def deps(name):
    out = [name]
    ext, imports = SHAPES[name]
    for d in ([ext] if ext else []) + imports:
        for x in deps(d):
            if x not in out:
                out.append(x)
    return out


BAD = {
    "syntax": b"<html xmlns:py=\"http://www.tonnikala.org/ns\"><py:if test=\"1\">no end</html>",
    "expr": b"<html>\n${1 +}</html>",
    "control": b"<html><py:nosuch/></html>",
    "utf8": b"<html>\xff\xfe\xe9</html>",
    "utf8cut": b"<html>\n<p>cut off in the middle of caf\xc3",
    "trunc": b"<html><p>cut off in ${the.mid",
    "typo": None,       # the last good version with one letter of it changed
}


class Disk(object):
    """The template files of a run and what they were at any time."""

    def __init__(self, env, names, spread=1):
        self.env = env
        self.sim = env.sim
        self.names = names
        self.dirs = []
        for i in range(spread):
            d = os.path.join(env.root, "d%d" % i)
            os.makedirs(os.path.join(d, "sub"))
            self.dirs.append(d)
        self.hist = {}          # name -> [[since, state]...]
        self.torn = {}          # name -> [times of in-place edits]
        self.src = {}           # (name, vid) -> (file, bytes)
        self.good = {}          # name -> (bytes, style) of the last good version
        self.mtime = {}         # (name, vid) -> mtime
        self.used = {n: set() for n in names}
        self.nvid = 0
        self.troubles = {}      # name -> [[from, to or None]...]
        self.faults = []        # [name, ops, errno, remaining]
        self.edits = []         # times of all edits
        self.nfile = 0
        self.tasks_ops = {}
        self.triggers = []      # [name, op, countdown, change]
        self.by_path = {}
        self.at = {}            # name -> the search path where it is found
        self.low = {}           # name -> version of the copy in a later one
        self.busy = 0           # loads under way
        self.parked = None      # the directory that is gone, and the states of its files
        for n in names:
            self.at[n] = hash_name(n) % spread
            for d in self.dirs:
                self.by_path[os.path.join(d, n)] = n
        boot.fs.hook = self.hook

    def path(self, name):
        return os.path.join(self.dirs[self.at[name]], name)

    # -- the same name in several search paths -----------------------------------
    def drop_low(self, name):
        if self.low.pop(name, None) is not None:
            os.unlink(os.path.join(self.dirs[-1], name))

    def move(self, name, change, first):
        """The next version goes to another search path.  In a later one, a
        copy may stay behind; it is modified too, because loaders notice only
        changes of what they have loaded."""
        to = min(change["dir"], len(self.dirs) - 1)
        cur = self.at[name]
        if to == cur and not first:
            return
        old = self.path(name)
        if not first:
            self.moved(name)
        self.at[name] = to
        if to > cur:
            self.low.pop(name, None)
        if os.path.lexists(old):
            os.unlink(old)
        if to < len(self.dirs) - 1 and change.get("leave") and not self.busy:
            self.sim.probe("copy_in_later_path")
            self.nvid += 1
            vid = self.low[name] = self.nvid
            f = make_file(name, vid, change.get("style", 0) + 1)
            data = tmpl.source(f).encode("utf-8")
            self.src[name, vid] = (f, data)
            self.mtime[name, vid] = m = self.new_mtime(name, change.get("mtime", 0.0) + 1)
            p = os.path.join(self.dirs[-1], name)
            with boot.real.open(p, "wb") as fo:
                fo.write(data)
            os.utime(p, (m, m))

    def moved(self, name):
        """A load that has just looked for the file may not find it."""
        self.troubles.setdefault(name, []).insert(0, [self.sim.now, self.sim.now])

    def new_mtime(self, name, m):
        m += MT0
        while any(abs(m - u) < 0.004 for u in self.used[name]):
            m += 0.0125
        self.used[name].add(m)
        return m

    # -- edits ---------------------------------------------------------------
    def install(self, name, change, first=False):
        """change: {"what", "how", "mtime", "style", ...}; instantaneous."""
        if self.is_parked(name, change):
            return
        boot.fs.hook = None
        try:
            with NoPreempt():
                self._install(name, change, first)
        finally:
            boot.fs.hook = self.hook

    def _install(self, name, change, first):
        what = change.get("what", "new")
        if "dir" in change and len(self.dirs) > 1 and what != "gone":
            self.move(name, change, first)
        p = self.path(name)
        now = self.sim.now
        mtime = None
        if what == "old":
            olds = [v for (n, v) in self.src if n == name and v != self.low.get(name)]
            vid = olds[change.get("pick", 0) % len(olds)]
            data = self.src[name, vid][1]
            if self.env.plan.get("aba"):
                # with its modification time as well: only where no edit can
                # fall between reading a file and taking its time
                mtime = self.mtime[name, vid]
            state = ("v", vid)
        elif what == "gone":
            if change.get("only") and name not in self.low:
                return
            try:
                os.unlink(p)
            except FileNotFoundError:
                return
            if name in self.low and change.get("fall"):
                self.sim.probe("fell_back")
                self.moved(name)
                self.at[name] = len(self.dirs) - 1
                self.record(name, ("v", self.low.pop(name)), now, True)
                return
            self.drop_low(name)
            self.record(name, ("gone",), now, True)
            return
        elif what == "new":
            self.nvid += 1
            vid = self.nvid
            style = change.get("style", 0)
            if change.get("same") and name in self.good:
                # (as long as the last one, unless the number is longer)
                style = self.good[name][1]
            f = make_file(name, vid, style)
            data = tmpl.source(f).encode("utf-8")
            self.good[name] = data, style
            self.src[name, vid] = (f, data)
            state = ("v", vid)
        else:
            data = BAD[what]
            if what == "typo":
                data = self.good[name][0]
                i = data.rindex(b"</") + 2
                data = data[:i] + b"z" + data[i + 1:]
            self.nvid += 1
            vid = self.nvid
            state = ("bad", what)
        if mtime is None:
            mtime = self.new_mtime(name, change.get("mtime", 0.0))
            self.mtime[name, vid] = mtime
        how = change.get("how", "replace")
        if how == "inplace" and os.path.lexists(p):
            with boot.real.open(p, "wb") as fo:
                fo.write(data)
            os.utime(p, (mtime, mtime))
            if not first:
                self.torn.setdefault(name, []).append(now)
        else:
            self.nfile += 1
            q = os.path.join(self.env.root, "new%d" % self.nfile)
            with boot.real.open(q, "wb") as fo:
                fo.write(data)
            os.utime(q, (mtime, mtime))
            if how == "symlink":
                link = q + ".link"
                os.symlink(q, link)
                os.replace(link, p)
            else:
                os.replace(q, p)
        self.record(name, state, now, not first)

    def record(self, name, state, now, edit):
        self.hist.setdefault(name, []).append([now, state])
        tr = self.troubles.setdefault(name, [])
        if tr and tr[-1][1] is None:
            tr[-1][1] = now
        if state[0] != "v":
            tr.append([now, None])
        if edit:
            self.edits.append(now)
            self.sim.fault("edit" if state[0] == "v" else "edit_" + (state[1] if len(state) > 1 else "delete"))
            self.sim.log("edit", name, state)

    # -- whole directories ---------------------------------------------------------
    def park(self, which):
        """A directory of templates is gone until ``unpark``."""
        d = os.path.join(self.dirs[which["dir"] % len(self.dirs)], which["sub"]).rstrip("/")
        inside = [n for n in self.names if self.path(n).startswith(os.path.join(d, ""))]
        if self.parked or self.low or not inside:
            return
        with NoPreempt():
            boot.fs.hook, h = None, boot.fs.hook
            os.rename(d, d + ".away")
            boot.fs.hook = h
            self.parked = d, {n: self.hist[n][-1][1] for n in inside}
            self.sim.fault("directory_gone")
            for n in inside:
                self.record(n, ("gone",), self.sim.now, True)

    def unpark(self):
        if not self.parked:
            return
        with NoPreempt():
            d, states = self.parked
            self.parked = None
            boot.fs.hook, h = None, boot.fs.hook
            os.rename(d + ".away", d)
            boot.fs.hook = h
            for n, st in states.items():
                self.record(n, st, self.sim.now, True)

    def is_parked(self, name, change=None):
        if not self.parked:
            return False
        # (nothing moves while a directory is gone)
        return name in self.parked[1] or bool(change and "dir" in change)

    # -- faults ----------------------------------------------------------------
    def add_fault(self, name, ops, err, times):
        self.faults.append([name, tuple(ops), err, times, self.sim.now])
        self.sim.log("fault", name, ops, err, times)

    def clear_faults(self):
        self.faults = []

    def hook(self, op, path):
        s = self.sim
        if s.cur is not None:
            k = s.cur.tid
            d = self.tasks_ops.setdefault(k, {})
            d[op] = d.get(op, 0) + 1
        name = self.by_path.get(path)
        if name is None:
            return
        for t in list(self.triggers):
            if t[0] == name and t[1] == op:
                t[2] -= 1
                if t[2] < 0:
                    self.triggers.remove(t)
                    s.probe("edit_during_" + op)
                    self.install(name, t[3])
        for f in list(self.faults):
            if f[0] == name and op in f[1]:
                f[3] -= 1
                if f[3] <= 0:
                    self.faults.remove(f)
                s.fault("EIO_%s" % op)
                self.troubles.setdefault(name, []).insert(0, [s.now, s.now])
                raise OSError(f[2], os.strerror(f[2]), path)

    # -- what was true when ---------------------------------------------------
    def during(self, name, t0, t1):
        """States the file had at some time in [t0, t1]."""
        out = []
        h = self.hist[name]
        for i, (since, st) in enumerate(h):
            until = h[i + 1][0] if i + 1 < len(h) else float("inf")
            if since <= t1 + FUZZ and until >= t0 - FUZZ:
                out.append(st)
        return out

    def troubled(self, name, t0, t1):
        return any(a <= t1 + FUZZ and (b is None or b >= t0 - FUZZ) for a, b in self.troubles.get(name, ()))

    def was_torn(self, name, t0, t1):
        return any(t0 - FUZZ <= t <= t1 + FUZZ for t in self.torn.get(name, ()))

    def ever(self, name, t1):
        return [st for since, st in self.hist[name] if since <= t1 + FUZZ]

    def edited(self, t0, t1):
        return any(t0 - FUZZ <= t <= t1 + FUZZ for t in self.edits)

    def expected(self, name, versions, ctx):
        files = {n: self.src[n, v][0] for n, v in versions.items()}
        return tmpl.Model(files).render(name, ctx)


def hash_name(name):
    return sum(name.encode()) * 7 + len(name)


def parse_marks(text):
    """{file name: set of versions shown}"""
    out = {}
    for i, v in MARK.findall(text):
        out.setdefault(ORDER[int(i)], set()).add(int(v))
    return out


class LoadWorld(object):
    """Loads against a Disk under an oracle."""

    ERRORS = ("OSError", "TemplateSyntaxError", "UnicodeDecodeError", "SyntaxError")

    def __init__(self, env):
        from tonnikala.loader import FileLoader
        from tonnikala.runtime.exceptions import TemplateSyntaxError

        self.env = env
        self.sim = env.sim
        plan = env.plan
        self.names = plan["names"]
        self.disk = Disk(env, self.names, plan.get("spread", 1))
        for n in self.names:
            self.disk.install(n, plan["initial"][n], first=True)
        self.FileLoader = FileLoader
        self.loader = FileLoader(self.disk.dirs)
        self.loader.set_reload(plan.get("reload", True))
        self.errors = (OSError, TemplateSyntaxError, UnicodeDecodeError, SyntaxError)
        self.held = []
        self.nload = 0
        if plan.get("short"):
            n = plan["short"]
            boot.fs.shortread = lambda p: n

    def context(self):
        self.nload += 1
        return {"s0": "<%d>" % self.nload, "b0": self.nload % 2 == 0}

    def load_render(self, name, absolute=False, loader=None):
        """(t0, t1, template, text, exception)"""
        t0 = self.sim.now
        t = text = exc = None
        ctx = self.context()
        n = self.disk.path(name) if absolute else name
        self.disk.busy += 1
        try:
            t = (loader or self.loader).load(n)
            text = t.render(dict(ctx))
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except Exception as e:
            exc = e
        finally:
            self.disk.busy -= 1
        t1 = self.sim.now
        self.sim.log("load", name, type(exc).__name__, sorted(
            (k, sorted(v)) for k, v in parse_marks(text or "").items()))
        return t0, t1, t, text, exc, ctx

    def check_load(self, name, t0, t1, text, exc, ctx, where, window=W):
        """The common oracle.  True if the load succeeded."""
        d = self.disk
        ds = deps(name)
        lo = t0 - window
        if any(d.was_torn(n, lo, t1) for n in ds):
            return text is not None
        trouble = [n for n in ds if d.troubled(n, lo, t1)]
        if exc is not None:
            if not trouble:
                raise Violation("load-failed", "%s: %s: %s: %s though nothing it depends on was broken" % (
                    where, name, type(exc).__name__, exc))
            if not isinstance(exc, self.errors):
                raise Violation("error-not-descriptive", "%s: %s (%s broken): %s: %s" % (
                    where, name, trouble, type(exc).__name__, exc))
            return False
        marks = parse_marks(text)
        versions = {}
        for n in ds:
            seen = marks.get(n, set())
            if len(seen) > 1:
                raise Violation("mixed-versions", "%s: %s shows versions %s of %s" % (
                    where, name, sorted(seen), n))
            if not seen:
                raise Violation("incomplete", "%s: %s shows nothing of %s: %r" % (where, name, n, text[:200]))
            v = versions[n] = min(seen)
            ok = d.ever(n, t1) if trouble else d.during(n, lo, t1)
            if ("v", v) not in ok:
                cur = d.during(n, t0, t0)
                raise Violation("stale", "%s: %s loaded at %.3f shows %s version %d; current then: %s, history %s" % (
                    where, name, t0, n, v, cur, [[round(a, 3), s] for a, s in d.hist[n]]))
        want = d.expected(name, versions, ctx)
        rl.check_same(text, want, "%s: %s with versions %s" % (where, name, versions))
        return True

    # -- operations ------------------------------------------------------------
    def do(self, op, where):
        k = op["op"]
        sim, d = self.sim, self.disk
        if k == "load":
            self.load_op(op, where)
        elif k == "sleep":
            sim.sleep(op["dt"])
        elif k == "edit":
            d.install(op["name"], op)
        elif k == "jump":
            sim.wall_offset += op["dt"]
            sim.fault("clock_jump")
        elif k == "reload":
            self.loader.set_reload(op["on"])
        elif k == "fault":
            d.add_fault(op["name"], op["ops"], op["errno"], op["times"])
        elif k == "clear":
            d.clear_faults()
        elif k == "park":
            d.park(op)
        elif k == "unpark":
            d.unpark()
        elif k == "trigger":
            d.triggers.append([op["name"], op["at"], op["after"], op["change"]])
        elif k == "filler":
            self.filler_op(op, where)
        else:
            raise core.HarnessError("op %r" % (op,))

    def load_op(self, op, where):
        t0, t1, t, text, exc, ctx = self.load_render(op["name"], op.get("abs"))
        ok = self.check_load(op["name"], t0, t1, text, exc, ctx, where)
        if ok and self.disk.edits and self.disk.edits[-1] > 1000.0:
            self.env.nontrivial = True
        return ok

    def filler_op(self, op, where):
        """Many more templates, which no edit or fault is about."""
        known = self.__dict__.setdefault("fillers", {})
        for i in range(op["from"], op["from"] + op["n"]):
            name = "fill%03d.tk" % i
            with NoPreempt():
                # (once: writing it again would change it)
                fill = os.path.join(self.disk.dirs[0], name)
                if not os.path.lexists(fill):
                    with boot.real.open(fill, "w") as f:
                        f.write("<p>filler %d $s0</p>" % i)
            try:
                t = self.loader.load(name)
                text = t.render({"s0": "<%d>" % i}) if i % 7 == 0 else None
            except (Violation, core.HarnessError, core.SimAbort):
                raise
            except Exception as e:
                raise Violation("load-failed", "%s: %s, which is as it ever was: %s: %s" % (
                    where, name, type(e).__name__, e))
            if text is not None and text != "<p>filler %d &lt;%d&gt;</p>" % (i, i):
                raise Violation("wrong-output", "%s: %s renders %r" % (where, name, text))
            if known.setdefault(name, t) is not t and self.env.plan.get("mode") in ("off", "same"):
                raise Violation("not-kept", "%s: %s, unchanged, is another template object" % (where, name))
        self.sim.probe("fillers")

    def run(self):
        plan, sim = self.env.plan, self.sim
        for i, ops in enumerate(plan["tasks"]):
            def body(i=i, ops=ops):
                for j, op in enumerate(ops):
                    self.do(op, "task%d.%d" % (i, j))
            sim.spawn("task%d" % i, body)
        self.env.measure = hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=6).hexdigest()
        sim.run()


# ---------------------------------------------------------------- generation

def draw_change(rng, bad=0.0, hows=("replace", "replace", "inplace", "symlink")):
    c = {"what": "new", "how": rng.choice(hows), "style": rng.randrange(90), "mtime": draw_mtime(rng)}
    if rng.random() < 0.25:
        c["same"] = True
    r = rng.random()
    if r < bad:
        c["what"] = rng.choice(sorted(BAD) + ["gone", "gone", "gone"])
    elif r < bad + 0.08:
        c["what"] = "old"
        c["pick"] = rng.randrange(8)
    return c


def add_moves(rng, plan):
    """Files move between search paths, and there are copies of them in later ones."""
    if plan["spread"] < 2 or rng.random() < 0.5:
        return plan

    def place(c):
        if rng.random() < 0.6:
            c["dir"] = rng.choice([0, 0, 1])
            c["leave"] = rng.random() < 0.7
        c["fall"] = rng.random() < 0.8
        if c["what"] == "new" and rng.random() < 0.3:
            c["what"] = "gone"
            c["fall"] = c["only"] = True

    for c in plan["initial"].values():
        c["dir"] = rng.choice([0, 0, 1])
        c["leave"] = rng.random() < 0.7
    for ops in plan["tasks"]:
        for o in ops:
            if o["op"] == "edit":
                place(o)
            elif o["op"] == "trigger":
                place(o["change"])
            elif o["op"] == "fault":
                # (one that cannot be looked at counts as missing, and a copy
                # of it is used until something changes)
                o["ops"] = [x for x in o["ops"] if x != "stat"] or ["open"]
    return plan


def add_parking(rng, plan, p=0.12):
    """A directory goes away and comes back."""
    if rng.random() < p and not any(o["op"] == "filler" for t in plan["tasks"] for o in t):
        ops = rng.choice([t for t in plan["tasks"] if t])
        i = rng.randint(0, len(ops))
        j = rng.randint(i, len(ops))
        ops.insert(j, {"op": "unpark"})
        if rng.random() < 0.8:
            ops.insert(j, {"op": "sleep", "dt": draw_dt(rng)})
        ops.insert(i, {"op": "park", "dir": rng.randrange(2), "sub": rng.choice(["", "", "sub"])})
    return plan


def draw_mtime(rng):
    """Close together, far apart, earlier, later."""
    r = rng.random()
    if r < 0.4:
        return round(rng.uniform(-2, 2), 3)
    if r < 0.8:
        return round(rng.uniform(-100000, 100000), 2)
    return float(rng.randrange(-10, 10) * 3600)


def draw_dt(rng):
    r = rng.random()
    if r < 0.3:
        return round(rng.uniform(0.001, 0.24), 4)
    if r < 0.5:
        return round(rng.uniform(0.24, 0.5), 4)
    if r < 0.85:
        return round(rng.uniform(0.5, 0.8), 4)
    return round(rng.uniform(0.8, 20), 3)


def add_fillers(rng, plan, p=0.04):
    """Sites have more than a handful of templates."""
    if rng.random() < p:
        n = rng.choice([15, 40, 70, 110, 150])
        for _ in range(rng.randint(1, 2)):
            ops = rng.choice(plan["tasks"])
            ops.insert(rng.randint(0, len(ops)), {"op": "filler", "n": n, "from": rng.choice([0, 0, n])})
    return plan


def settle_aba(rng, plan):
    """Bringing a version back together with its old modification time is only
    fair when no edit can fall into a load."""
    plan["aba"] = (rng.random() < 0.5 and len(plan["tasks"]) == 1
                   and not any(o["op"] == "trigger" for o in plan["tasks"][0]))
    return plan


def base_plan(rng, **kw):
    names = draw_names(rng)
    plan = {"names": names, "spread": rng.choice([1, 1, 2]),
            "initial": {n: {"what": "new", "how": rng.choice(["replace", "symlink"]), "style": rng.randrange(90),
                            "mtime": draw_mtime(rng)} for n in names}, "tasks": []}
    plan.update(kw)
    return plan


def draw_load(rng, names):
    # compositions more often than leaves
    n = rng.choice(names)
    if SHAPES[n] == (None, []) and rng.random() < 0.4:
        n = rng.choice(names)
    return {"op": "load", "name": n, "abs": rng.random() < 0.07}


def shrinks(plan):
    yield from rl.shrink_plan(plan, files=False)
    if plan.get("short"):
        yield dict(plan, short=0)
    if plan.get("spread", 1) > 1:
        yield dict(plan, spread=1)
    used = set()

    def use(o):
        if isinstance(o, dict):
            if "name" in o:
                used.update(deps(o["name"]))
            for x in o.values():
                use(x)
        elif isinstance(o, list):
            for x in o:
                use(x)

    use(plan["tasks"])
    if used and used < set(plan["names"]):
        names = sorted(used)
        yield dict(plan, names=names, initial={n: plan["initial"][n] for n in names})
    for n in plan["names"]:
        if plan["initial"][n].get("style"):
            yield dict(plan, initial=dict(plan["initial"], **{n: dict(plan["initial"][n], style=0)}))
    for i, t in enumerate(plan["tasks"]):
        for j, o in enumerate(t):
            alts = []
            if o.get("abs"):
                alts.append(dict(o, abs=False))
            if o["op"] == "filler" and o["n"] > 2:
                alts.append(dict(o, n=o["n"] // 2))
                alts.append(dict(o, n=o["n"] - 1))
            if o["op"] == "sleep" and o["dt"] != 0.6:
                alts.append(dict(o, dt=0.6))
            if o["op"] == "edit" and o.get("style"):
                alts.append(dict(o, style=0))
            if o["op"] == "edit" and o.get("how") != "replace":
                alts.append(dict(o, how="replace"))
            for a in alts:
                yield dict(plan, tasks=plan["tasks"][:i] + [t[:j] + [a] + t[j + 1:]] + plan["tasks"][i + 1:])
