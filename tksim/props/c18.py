"""C18: the template compiler never reports success without a complete output."""
import errno
import hashlib
import os
import re
import shutil
import subprocess

from .. import boot, core, jstmpl, tmpl
from ..core import Violation

ID = "C18"
RUNS = {"quick": 400, "thorough": 40000}
BUFFERS = ("c",)
REAL = ["bin/tonnikala-compile-jstemplate in a process of its own", "JSLoader, the parser and the generator",
        "CPython's text and file layers", "the kernel's files"]
STUBS = ["the results of open, read, write, close, sync and rename (a preloaded library decides which of them fail, "
         "are cut short, find the disk full or are never reached because the process is killed)"]
RULE = ("a drawn history of 1-3 compilations (valid, empty, large, invalid, undecodable, missing templates; files, "
        "links, standard streams, directories and full devices as source and target; two encodings, buffered and "
        "unbuffered) each with drawn faults in its input and output operations, the last one without; exit status, "
        "message and the bytes of the target are compared with what the template compiles to; non-trivial: a fault "
        "struck, or the compilation has to fail")
ASSUMPTIONS = ["close releases the descriptor even if it reports an error (Linux)"]
PY = "/opt/venv/bin/python"
ERRS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EDQUOT, errno.EFBIG, errno.EPIPE, errno.ENXIO, errno.EINTR,
        errno.EMFILE, errno.EROFS]
BROKEN = [
    "<html><div></html>", "<html js:frob='1'></html>", "<js:nothing></js:nothing>", "<html>${a +}</html>",
    "<html><js:if>x</js:if></html>", "<html><?js var = 3; ?></html>", "<html>${a</html>", "<a></b>",
    "<html><js:for each='x'>y</js:for></html>", "text only", "<html><p js:if='('>x</p></html>",
    "<html>${a; b}</html>", "<html>${return a}</html>", "<html><p js:if='a; b'>x</p></html>",
    "<html><p js:strip='a; b'>x</p></html>", "<html><p title='${a; b}'>x</p></html>",
    "<html><js:with vars='var a=1'>x</js:with></html>", "<html>$a.b(</html>", "<html>$a[1</html>",
    "<html><js:block>x</js:block></html>", "<html><js:block name='a b'>x</js:block></html>",
    "<js:extends href='x'><p>y</p></js:extends>", "<js:extends href='x'>y</js:extends>",
    "<js:extends>y</js:extends>", "<html>&nosuch;</html>", "<html><?js a( ?></html>",
    "<html><js:unless test='x'>x</js:unless></html>", "<html><p js:if=''>x</p></html>",
    "<html><p js:for='a in b;c'>x</p></html>", "<html></html><html></html>", "<html><js:def>x</js:def></html>",
    "<html>${'a}</html>", "<html>${[a}</html>", "<html>${a)}</html>", "<html><p js:content='a b'>x</p></html>",
    "<html><p title='${a b}'>x</p></html>", "<html><p title='${a'>x</p></html>",
]


def build_shim():
    src = os.path.join(boot.VERIF, "tksim", "c", "ioshim.c")
    with boot.real.open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(boot.BUILD, "ioshim-%s.so" % h)
    if not os.path.exists(out):
        os.makedirs(boot.BUILD, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", src, "-o", tmp, "-ldl"],
                           capture_output=True, text=True)
        if r.returncode:
            raise core.HarnessError("cannot compile ioshim.c:\n" + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def prepare():
    build_shim()


def source_hash():
    """Compiled Python files are kept apart by the contents of the sources."""
    h = hashlib.sha256()
    for d, dirs, files in os.walk(os.path.join(boot.REPO, "tonnikala")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                with boot.real.open(os.path.join(d, f), "rb") as g:
                    h.update(g.read())
    return h.hexdigest()[:16]


def setup():
    from tonnikala.loader import JSLoader

    JSLoader().load_string("<html>${a}</html>")
    global PYC
    PYC = os.path.join(boot.BUILD, "pyc-" + source_hash())


def damage(rng, text):
    """The valid template with one error that no leniency of HTML covers."""
    r = rng.random()
    if r < 0.55:
        at = [m for m in re.finditer(r"\$\{([^{}]*)\}", text) if not text[:m.start()].endswith("$")]
        if not at:
            return None
        m = rng.choice(at)
        e = m.group(1)
        e = rng.choice(["%s; b", "%s b", "(%s", "%s)", "[%s", "%s]", "%s +", "* %s", "return %s", "var x = %s",
                        "%s 'b", "%s ? 1", "if (%s) 1", "%s @", "%s `", "`%s`", "# %s", "%s #"]) % e
        if e.count("'") % 2 and text.count("'"):
            return None
        return text[:m.start()] + "${" + e + "}" + text[m.end():]
    if r < 0.65:
        i = text.find("${")
        return text[:i + 2] + " a(" + text[text.index("}", i):] if i > 0 and "'" not in text else None
    i = text.rfind("</html>")
    if i < 0:
        return None
    return text[:i] + rng.choice([
        "<js:nothing></js:nothing>", "<p js:frob='1'></p>", "&nosuch;", "</nope>", "<js:if>x</js:if>", "<b></i>",
        "<p js:if='a b'>x</p>", "<p js:for='x'>y</p>", "<p js:for=''>y</p>", "<?js var = 3; ?>", "${a", "${", "$a(",
        "$a[0", "<js:def function='f('>x</js:def>", "<js:with vars='var a = 1'>x</js:with>", "<p title='${a'>x</p>",
        "<p title='${a b}'>x</p>", "<js:block>x</js:block>", "<p js:strip='a b'>x</p>",
    ]) + text[i:]


# every t(n, ...) of a template must be in what it compiles to
PIECES = [
    '<p js:with="o = {}; o.k = t(901, 1)">${o.k}</p>', '<js:with vars="q = t(902, 1); r = q; q = t(903, r)">$q</js:with>',
    '<p js:for="x in t(904, [1])" js:if="t(905, x)" title="a${t(906, x)}b$x">$x</p>',
    '<js:if test="!t(907, 1)">x${t(908, 2)}</js:if>', '<?js var z = t(909, 1); z += t(910, 2); ?>${z}',
    '<p js:attrs="[[\'a\', t(911, 1)]]">$t(912, 1)</p>', '<js:def function="ff(x)">${t(913, x)}</js:def>${ff(t(914, 1))}',
    '<script>var a = "${t(915, 1)}"; </script>', '${function () { return t(916, 1); }()}${t(917, {a: t(918, 1)}.a)}',
    '<p js:strip="t(919, 1)" class="${t(920, 1)}">x</p>', '<b js:content="t(921, 1)"/><b js:replace="t(922, 1)"/>',
    '<?js if (t(923, 1)) { t(924, 1); } else { t(925, 1); } ?>', '${t(926, 1) ? t(927, 2) : t(928, 3)}',
    '<js:if test="t(929, 0)"><js:for each="y, i in [t(930, 1)]">$y$i<js:if test="t(931, y)">t</js:if></js:for></js:if>',
    '<js:with vars="a1 = [0]; a1[0] = t(932, 1)">${a1[0]}<p js:with="a1[0] = t(933, 1)">x</p></js:with>',
    '<js:block name="bb"><js:def function="inner()">${t(934, 1)}</js:def>${inner()}</js:block>',
    '<js:with vars="n = 1; n += t(935, 1); n++">$n</js:with>', '<p title="${t(936, 1)}${t(937, 1)}" alt="$t(938, 1)">x</p>',
]
CONSTANT = re.compile(r"""(?:if|unless|test|strip)="(?:[!(]|\s)*(?:[\d'{\[]|true|false|null|&)""")
CALL = re.compile(r"\bt\((\d+),")


def missing(text, out):
    """The calls of a template without constant conditions that are not in the output."""
    if CONSTANT.search(text):
        return []
    return sorted(set(CALL.findall(text)) - set(CALL.findall(out)))


def template(rng):
    """[what, text or hex bytes]"""
    r = rng.random()
    if r < 0.06:
        return ["text", rng.choice(["", "<html></html>", "<html>\n</html>\n", "<p>$a</p>"])]
    if r < 0.24:
        return ["broken", rng.choice(BROKEN)]
    if r < 0.31:
        return ["bytes", (b"<html>" + rng.choice([b"\xff", b"\xc3(", b"\xed\xa0\x80", b"\xe4"]) + b"</html>").hex()]
    g = tmpl.Gen(rng, feat={"builtins": False, "lit": True, "forms": False, "jsforms": True}, maxdepth=rng.choice([1, 2, 3]))
    env = g.context_vars()
    f, sig, blocks = g.file(env, nblocks=rng.randint(0, 2))
    if rng.random() < 0.3:
        f = g.child(env, "base", blocks, sig)
    text = jstmpl.source(f)
    if rng.random() < 0.12:
        text = damage(rng, text)
        if text is not None:
            return ["broken", text]
        text = jstmpl.source(f)
    r = rng.random()
    if r < 0.35:
        filler = rng.choice(["", rng.choice(PIECES)]) + "".join(rng.choice(["lorem ipsum ", "dolor &amp; sit ", "x" * 50 + " ", "$$ "])
                         for _ in range(rng.choice([300, 1500, 6000])))
        text = text.replace("</html>", "<p>%s</p></html>" % filler) if "</html>" in text else text
    if rng.random() < 0.35 and "</html>" in text:
        for p in rng.sample(PIECES, rng.randint(1, 3)):
            text = text.replace("</html>", p + "</html>")
    if rng.random() < 0.25 and "</html>" in text:
        text = text.replace("</html>", "<i>\u00e4\u20ac\U0001f600</i></html>")
    if rng.random() < 0.1:
        text = text.replace("\n", "\r\n")
    return ["text", text]


def faults(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 4])):
        r = rng.random()
        k = rng.choice([rng.randrange(12), rng.randrange(12), rng.randrange(40)])
        if r < 0.55:
            out.append([k, "errno", rng.choice(ERRS)])
        elif r < 0.75:
            out.append([k, "short", rng.choice([1, 1, 7, 100, 4096])])
        elif r < 0.85:
            out.append([k, "kill", 0])
        else:
            out.append([-1, "full", rng.choice([0, 1, 100, 1000, 4096, 5000, 8191, 8192, 8193, 20000])])
    return out


def generate(rng, tier):
    runs = []
    for i in range(rng.choice([1, 1, 2, 3])):
        runs.append({
            "template": template(rng),
            "source": rng.choice(["file"] * 8 + ["stdin"] * 3 + ["missing", "dir", "closed"]),
            "target": rng.choice(["file"] * 7 + ["stdout"] * 4 + ["link", "dir", "nodir", "full", "same", "closed",
                                                                    "outfull", "deep"]),
            "faults": faults(rng),
            "ascii": rng.random() < 0.2,
            "unbuffered": rng.random() < 0.3, "strict": rng.random() < 0.6,
            "hashseed": rng.randrange(5),
        })
    runs.append({"template": template(rng), "source": "file", "target": "file", "faults": [], "ascii": False,
                 "unbuffered": False, "hashseed": 0, "strict": True})
    old = rng.choice([None, "", "old\n", "old content\n" * 3000])
    return {"runs": runs, "old": old}


def shrinks(plan):
    rs = plan["runs"]
    for i in range(len(rs)):
        if len(rs) > 1:
            yield dict(plan, runs=rs[:i] + rs[i + 1:])
    for i, r in enumerate(rs):
        def with_(**k):
            return dict(plan, runs=rs[:i] + [dict(r, **k)] + rs[i + 1:])
        for j in range(len(r["faults"])):
            yield with_(faults=r["faults"][:j] + r["faults"][j + 1:])
        for k, v in (("ascii", False), ("unbuffered", False), ("hashseed", 0), ("source", "file"), ("target", "file")):
            if r[k] != v:
                yield with_(**{k: v})
        if not r["strict"]:
            yield with_(strict=True)
        what, text = r["template"]
        if what == "text" and len(text) > 20:
            yield with_(template=["text", "<html>${a}</html>"])
            yield with_(template=["text", "<html>%s</html>" % ("lorem ipsum " * 2000)])
    if plan["old"] not in (None, "old\n"):
        yield dict(plan, old="old\n")


def read(path):
    try:
        with boot.real.open(path, "rb") as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None


class World(object):
    def __init__(self, env):
        self.env, self.sim, self.plan = env, env.sim, env.plan
        self.dir = env.root + "-io"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self.work = os.path.join(self.dir, "work")
        os.mkdir(self.work)

    def write(self, path, data):
        with boot.real.open(path, "wb") as f:
            f.write(data)

    def expected(self, data, r):
        """What the source compiles to, as bytes; or (None, why not)."""
        from tonnikala.loader import JSLoader

        enc = "ascii" if r["ascii"] else "utf-8"
        stdio = "surrogateescape" if r["ascii"] or not r["strict"] else "strict"
        if data is None:
            return None, "source"
        try:
            text = data.decode(enc, stdio if r["source"] == "stdin" else "strict")
        except UnicodeDecodeError:
            return None, "source"
        if r["source"] != "stdin":
            text = text.replace("\r\n", "\n").replace("\r", "\n")
        try:
            out = JSLoader().load_string(text)
        except BaseException:
            return None, "template"
        if r["template"][0] == "broken":
            return None, "template"
        if not isinstance(out, str):
            return None, "template"
        lost = missing(text, out) if r["template"][0] == "text" else None
        if lost:
            raise Violation("incomplete-output", "the output of %r has nothing of the expressions t(%s, ...)" % (
                text, ", ...), t(".join(lost)))
        try:
            return out.encode(enc, stdio if r["target"] in ("stdout", "outfull", "closed") else "strict"), None
        except UnicodeEncodeError:
            return None, "encode"

    def spawn(self, n, r, src, dst, data):
        """Run the tool once; returns (status, stdout, stderr, operations)."""
        log = os.path.join(self.dir, "log%d" % n)
        out, err = os.path.join(self.dir, "out%d" % n), os.path.join(self.dir, "err%d" % n)
        inp = os.path.join(self.dir, "in%d" % n)
        self.write(inp, data if r["source"] == "stdin" else b"")
        env = {
            "PATH": "/usr/bin:/bin", "LD_PRELOAD": build_shim(),
            "TKSIM_IO": "\n".join([self.work, log] + ["%d %s %d" % tuple(f) for f in r["faults"]]),
            "PYTHONPATH": boot.REPO, "PYTHONPYCACHEPREFIX": PYC, "PYTHONHASHSEED": str(r["hashseed"]),
            "LC_ALL": "C.UTF-8",
        }
        if r["ascii"]:
            env.update(PYTHONUTF8="0", LC_ALL="C", PYTHONCOERCECLOCALE="0")
        if r["unbuffered"]:
            env["PYTHONUNBUFFERED"] = "1"
        if r["strict"] and not r["ascii"]:
            env["PYTHONIOENCODING"] = "utf-8:strict"
        acts = [(os.POSIX_SPAWN_OPEN, 0, inp, os.O_RDONLY, 0),
                (os.POSIX_SPAWN_OPEN, 1, "/dev/full" if r["target"] == "outfull" else out,
                 os.O_WRONLY | os.O_CREAT, 0o600),
                (os.POSIX_SPAWN_OPEN, 2, err, os.O_WRONLY | os.O_CREAT, 0o600)]
        if r["source"] == "closed":
            acts.append((os.POSIX_SPAWN_CLOSE, 0))
        if r["target"] == "closed":
            acts.append((os.POSIX_SPAWN_CLOSE, 1))
        args = [PY, os.path.join(boot.REPO, "bin", "tonnikala-compile-jstemplate"), src, dst]
        cwd = os.getcwd()
        os.chdir(self.work)
        try:
            pid = os.posix_spawn(PY, args, env, file_actions=acts)
        finally:
            os.chdir(cwd)
        _, st = os.waitpid(pid, 0)
        ops = []
        for line in (read(log) or b"").decode("utf-8", "replace").splitlines():
            p = line.split(" ")
            ops.append((int(p[0]), p[1], p[2], p[3] if len(p) > 3 else ""))
        return os.waitstatus_to_exitcode(st), read(out), (read(err) or b"").decode("utf-8", "replace"), ops

    def invoke(self, n, r):
        sim = self.sim
        work = self.work
        what, text = r["template"]
        data = bytes.fromhex(text) if what == "bytes" else text.encode("utf-8")
        src, dst = "page.html", "page.js"
        spath = os.path.join(work, src)
        if os.path.isdir(spath):
            os.rmdir(spath)
        elif os.path.lexists(spath):
            os.unlink(spath)
        s, t = r["source"], r["target"]
        if s == "file":
            self.write(spath, data)
        elif s == "dir":
            os.mkdir(spath)
        elif s in ("stdin", "closed"):
            src = "-"
        if t == "link":
            os.makedirs(os.path.join(work, "real"), exist_ok=True)
            if not os.path.lexists(os.path.join(work, "link.js")):
                os.symlink(os.path.join("real", "page.js"), os.path.join(work, "link.js"))
            dst = "link.js"
        elif t == "dir":
            os.makedirs(os.path.join(work, "adir"), exist_ok=True)
            dst = "adir"
        elif t == "nodir":
            dst = "nodir/page.js"
        elif t == "deep":
            os.makedirs(os.path.join(work, "real", "deep"), exist_ok=True)
            dst = os.path.join(work, "real", "deep", "page.js")
        elif t == "full":
            dst = "/dev/full"
        elif t == "same":
            dst = "page.html"
        elif t in ("stdout", "closed", "outfull"):
            dst = "-"
        dpath = os.path.join(work, dst)
        before = read(dpath) if dst not in ("-", "/dev/full") else None
        want, why = self.expected(None if s in ("missing", "dir", "closed") else data, r)
        if t in ("dir", "nodir", "closed") or t in ("full", "outfull") and want:
            can = False
        else:
            can = want is not None
        status, out, err, ops = self.spawn(n, r, src, dst, data)
        after = read(dpath) if dst not in ("-", "/dev/full") else None
        got = out if dst == "-" else after

        sim.steps += len(ops)
        sim.trace.update(repr((status, hashlib.sha256(got or b"").hexdigest(), ops)).encode())
        sim.inter.update(repr(ops).encode())
        sim.log("compile", s, t, what, status, [o for o in ops if o[3]])
        for _, op, name, did in ops:
            if did:
                sim.fault("%s_%s" % (op, did))
                self.env.nontrivial = True
        if not can:
            self.env.nontrivial = True
            sim.probe("must_fail_" + (why or t))
        self.shape.append("%s>%s%s" % (s, t, [o[1:] for o in ops if o[3]]))

        killed = any(o[3] == "killed" for o in ops)
        eintr = {f[0] for f in r["faults"] if f[1] == "errno" and f[2] == errno.EINTR}
        source_names = ("page.html", "<stdin>")
        hit = [o for o in ops if o[3] in ("failed", "full") and o[0] not in eintr]
        bad_out = [o for o in hit if o[2] not in source_names or o[1] not in ("open", "read", "close")]
        where = "%s -> %s, template %r, operations %s\nstatus %s, stderr %r" % (
            src, dst, (what, text[:200]), ops[-12:], status, err[-600:])
        if status == 0:
            if want is None:
                raise Violation("false-success", "succeeded although there is nothing to compile (%s)\n%s" % (why, where))
            if bad_out:
                raise Violation("ignored-error", "success in spite of %r\n%s" % (bad_out, where))
            if t in ("full", "outfull") and want or t == "closed":
                raise Violation("false-success", "succeeded on a full device or without output\n%s" % where)
            if t not in ("full", "outfull") and got != want:
                raise Violation("incomplete-output", "%s of %d bytes\n%s" % (
                    "nothing" if got is None else "%d" % len(got), len(want), where))
            return
        if killed:
            return
        if status < 0:
            raise Violation("crash", "killed by signal %d\n%s" % (-status, where))
        if not err.strip():
            raise Violation("no-message", where)
        # any disturbance of the input counts as a reason
        if can and not hit and not any(o[0] in eintr for o in ops):
            raise Violation("false-failure", where)
        own = bad_out or why == "encode" or any(o[0] in eintr and (o[2] not in source_names or t == "same") for o in ops) \
            or t == "same" and any(o[1] == "close" for o in hit)
        if t in ("file", "link", "deep", "same") and before is not None and after != before and not own:
            raise Violation("destroyed-output", "the output file of %d bytes was changed to %s\n%s" % (
                len(before), "nothing" if after is None else len(after), where))

    def run(self):
        self.shape = []
        try:
            if self.plan["old"] is not None:
                self.write(os.path.join(self.work, "page.js"), self.plan["old"].encode())
            for n, r in enumerate(self.plan["runs"]):
                self.invoke(n, r)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.env.measure = " ".join(self.shape)


def execute(env):
    World(env).run()
