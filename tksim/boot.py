"""Install every seam, then import the real code from /repo.

Must run before anything imports ``tonnikala``.
"""
import _thread
import builtins
import codecs
import errno
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import stat as stat_mod
import subprocess
import sys
import sysconfig
import threading
import time

from . import core

REPO = os.environ.get("TKSIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

real = type("real", (), {})()
real.time = time.time
real.monotonic = time.monotonic
real.sleep = time.sleep
real.stat = os.stat
real.lstat = os.lstat
real.fstat = os.fstat
real.open = builtins.open
real.os_open = os.open
real.os_read = os.read
real.listdir = os.listdir
real.scandir = os.scandir
real.compile = builtins.compile
real.access = os.access

TOOL = 4


# ---------------------------------------------------------------------------
# clocks

def _install_clocks():
    def _wall():
        s = core.CURRENT
        if s is None:
            return real.time()
        s.clock_reads += 1
        s.point("c")
        return s.wall()

    def _mono():
        s = core.CURRENT
        if s is None:
            return real.monotonic()
        s.clock_reads += 1
        s.point("c")
        return s.now

    def _sleep(dt):
        s = core.CURRENT
        if s is None:
            return real.sleep(dt)
        s.sleep(dt)

    time.time = _wall
    time.time_ns = lambda: int(_wall() * 1e9)
    time.monotonic = _mono
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    time.perf_counter = _mono
    time.perf_counter_ns = lambda: int(_mono() * 1e9)
    time.sleep = _sleep

    import datetime as dt

    base = dt.datetime

    class datetime(base):
        @classmethod
        def now(cls, tz=None):
            s = core.CURRENT
            if s is None:
                return base.now(tz)
            return base.fromtimestamp(_wall(), tz)

        @classmethod
        def utcnow(cls):
            s = core.CURRENT
            if s is None:
                return base.utcnow()
            return base.utcfromtimestamp(_wall())

    dt.datetime = datetime


# ---------------------------------------------------------------------------
# locks

def _install_locks():
    threading.Lock = core.make_lock
    threading._allocate_lock = core.make_lock
    threading.RLock = core.make_rlock
    threading._CRLock = None
    threading._PyRLock = core.make_rlock
    _thread.allocate_lock = core.make_lock
    _thread.RLock = core.make_rlock


# ---------------------------------------------------------------------------
# files

class FS(object):
    """The simulated disk: real files under ``root`` whose every access is a
    scheduling point and a place where a fault can strike."""

    def __init__(self):
        self.root = None
        self.hook = None        # hook(op, path) -> None or raises OSError
        self.ops = 0
        self.by_op = {}
        self.open_fds = {}
        self.fd_owner = {}
        self.shortread = None   # callable(path) -> max bytes or None
        self.flip = None

    def covers(self, path):
        if self.root is None or core.ACTIVE is None and self.hook is None:
            return None
        if isinstance(path, int):
            return self.open_fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith(self.root):
            return p
        if not p.startswith("/") and os.path.abspath(p).startswith(self.root):
            return os.path.abspath(p)
        return None

    def touch(self, op, p):
        self.ops += 1
        self.by_op[op] = self.by_op.get(op, 0) + 1
        s = core.ACTIVE
        if s is not None:
            s.point("F")
        if self.hook is not None:
            self.hook(op, p)


fs = FS()


class SimFile(io.FileIO):
    def __init__(self, path, mode="r", **kw):
        self._sim_path = path
        super().__init__(path, mode, **kw)
        fs.open_fds[self.fileno()] = path
        s = core.ACTIVE
        fs.fd_owner[self.fileno()] = s.cur.tid if s is not None and s.cur is not None else None

    def close(self):
        if not self.closed:
            try:
                fs.open_fds.pop(self.fileno(), None)
            except ValueError:
                pass
        super().close()

    def _limit(self, n):
        if fs.shortread is not None:
            m = fs.shortread(self._sim_path)
            if m is not None:
                return max(1, min(n, m))
        return n

    def readinto(self, b):
        fs.touch("read", self._sim_path)
        mv = memoryview(b).cast("B")
        n = self._limit(len(mv))
        return super().readinto(mv[:n])

    def readall(self):
        out = []
        while True:
            fs.touch("read", self._sim_path)
            c = super().read(self._limit(65536))
            if not c:
                return b"".join(out)
            out.append(c)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        fs.touch("read", self._sim_path)
        return super().read(self._limit(n))

    def write(self, b):
        fs.touch("write", self._sim_path)
        return super().write(b)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    p = fs.covers(file) if not isinstance(file, int) else None
    if p is None:
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs.touch("open", p)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
    raw = SimFile(p, raw_mode or "r", closefd=closefd, opener=opener)
    result = raw
    try:
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if raw.readable() and raw.writable():
            result = io.BufferedRandom(raw, size)
        elif raw.writable():
            result = io.BufferedWriter(raw, size)
        else:
            result = io.BufferedReader(raw, size)
        if binary:
            return result
        text = io.TextIOWrapper(result, encoding, errors, newline)
        result = text
        text.mode = mode
        return text
    except BaseException:
        result.close()
        raise


def _install_fs():
    def w(name, op):
        orig = getattr(os, name)

        def f(path=".", *a, **k):
            p = fs.covers(path)
            if p is not None:
                fs.touch(op, p)
            return orig(path, *a, **k)

        f.__name__ = name
        setattr(os, name, f)
        return f

    st = w("stat", "stat")
    w("lstat", "stat")
    w("fstat", "fstat")
    w("access", "stat")
    w("listdir", "list")
    w("scandir", "list")
    os.supports_follow_symlinks.add(st)

    orig_open = os.open

    def os_open(path, *a, **k):
        p = fs.covers(path)
        if p is not None:
            fs.touch("open", p)
        fd = orig_open(path, *a, **k)
        return fd

    os.open = os_open
    builtins.open = sim_open
    io.open = sim_open
    # 3.12 implements these in C on some platforms; go through os.stat
    import genericpath
    import posixpath

    def exists(path):
        try:
            os.stat(path)
        except (OSError, ValueError):
            return False
        return True

    def isfile(path):
        try:
            st = os.stat(path)
        except (OSError, ValueError):
            return False
        return stat_mod.S_ISREG(st.st_mode)

    for m in (genericpath, posixpath, os.path):
        m.exists = exists
        m.isfile = isfile


# ---------------------------------------------------------------------------
# monitored code

marked = []
mark_roots = [os.path.join(REPO, "tonnikala")]
DEEP = tuple(os.path.join(REPO, "tonnikala", d) for d in (
    "languages", "syntaxes", "ir", "expr.py", "compat", "i18n", "helpers.py"))


deep = False
_unmarked = []          # code of the compiler proper, monitored in "deep" runs


def _is_deep(fn):
    return fn.startswith(DEEP)


def set_deep():
    """Line-level points inside the template compiler too."""
    global deep
    deep = True
    codes, _unmarked[:] = list(_unmarked), []
    for c in codes:
        mark(c)


def mark(code, fine=False):
    """Make every line (instruction) of a code object a scheduling point."""
    mon = sys.monitoring
    ev = mon.events.LINE | mon.events.PY_START
    if fine:
        ev |= mon.events.INSTRUCTION
    keep = core.CURRENT is None     # (nothing here keeps a template alive)
    if not deep and _is_deep(code.co_filename):
        if keep:
            _unmarked.append(code)
        return
    todo = [code]
    while todo:
        c = todo.pop()
        if isinstance(c, type(code)):
            mon.set_local_events(TOOL, c, ev)
            if keep:
                marked.append(c)
            todo.extend(k for k in c.co_consts if isinstance(k, type(code)))


template_fine = False


def _install_monitoring():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "tksim")

    ident = _thread.get_ident

    def on_line(code, line):
        s = core.ACTIVE
        if s is None or s.cur_ident != ident():
            return
        s.point()

    def on_instr(code, off):
        s = core.ACTIVE
        if s is None or s.cur_ident != ident():
            return
        s.point()

    def on_start(code, off):
        s = core.ACTIVE
        if s is None or s.cur_ident != ident():
            return
        if everywhere[0] and not mon.get_local_events(TOOL, code):
            # code made by the code under test from code compiled by it
            fn = code.co_filename
            if fs.root is None or not fn.startswith(fs.root):
                return mon.DISABLE
        s.enter(code)

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.register_callback(TOOL, mon.events.PY_START, on_start)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, on_instr)

    def sim_compile(source, filename, mode, flags=0, dont_inherit=False,
                    optimize=-1, **k):
        if not dont_inherit and not flags & 0x400:
            dont_inherit = True     # this wrapper has no __future__ flags
        c = real.compile(source, filename, mode, flags, dont_inherit, optimize, **k)
        if isinstance(c, CodeType):
            fn = os.fsdecode(filename) if isinstance(filename, bytes) else filename
            if not isinstance(fn, str):
                fn = str(fn)
            if fs.root is not None and fn.startswith(fs.root):
                mark(c, template_fine)
            elif fn.startswith("<sim") or fn.startswith(mark_roots[0]):
                mark(c, template_fine and fn.startswith("<sim"))
        return c

    from types import CodeType

    builtins.compile = sim_compile


everywhere = [False]


def set_everywhere(on):
    """Functions entered are looked at even if their code was never compiled
    or imported (code.replace)."""
    if everywhere[0] != on:
        everywhere[0] = on
        sys.monitoring.set_events(TOOL, sys.monitoring.events.PY_START if on else 0)


def set_fine(files=("loader.py", "runtime/python.py", "pyramid/__init__.py")):
    """Instruction-level points for the shared-state code."""
    global template_fine
    template_fine = True
    ends = tuple("/tonnikala/" + f for f in files)
    mon = sys.monitoring
    for c in list(marked):
        if c.co_filename.endswith(ends):
            mon.set_local_events(
                TOOL, c, mon.events.LINE | mon.events.PY_START | mon.events.INSTRUCTION)


# ---------------------------------------------------------------------------
# the C extension, compiled out of tree from /repo's current source

def build_ext():
    src = os.path.join(REPO, "tonnikala", "runtime", "_buffer.c")
    with real.open(src, "rb") as f:
        data = f.read()
    h = hashlib.sha256(data + sys.version.encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "buffer-%s%s" % (h, sysconfig.get_config_var("EXT_SUFFIX")))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    inc = sysconfig.get_paths()["include"]
    cmd = ["gcc", "-shared", "-fPIC", "-O1", "-g", "-fno-strict-aliasing", "-w",
           "-I" + inc, src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise core.HarnessError("cannot compile _buffer.c:\n" + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, kind):
        self.kind = kind

    def find_spec(self, name, path, target=None):
        if name != "tonnikala.runtime._buffer":
            return None
        if self.kind == "py":
            raise ImportError("the C buffer is disabled in this process", name=name)
        p = build_ext()
        loader = importlib.machinery.ExtensionFileLoader(name, p)
        return importlib.util.spec_from_file_location(name, p, loader=loader)


class _NoInstall(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        return None


def boot(buffer="c"):
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(VERIF, "build", "no-pycache")
    # third party code first: none of it is monitored, and what it captured
    # from the modules below is real
    import ast, collections.abc, ctypes, html.parser, html.entities  # noqa
    import logging, traceback, types, weakref, warnings, gc, re, json  # noqa
    import concurrent.futures, queue, tempfile, shutil, linecache  # noqa
    import markupsafe  # noqa
    warnings.simplefilter("ignore")
    _install_clocks()
    _install_locks()
    _install_fs()
    _install_monitoring()
    sys.meta_path.insert(0, _ExtFinder(buffer))
    # /repo first, so that the code under test is /repo's working tree
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    import tonnikala.loader  # noqa
    import tonnikala.runtime.debug  # noqa
    import tonnikala.languages.javascript  # noqa
    import pkgutil
    import tonnikala

    assert os.path.abspath(tonnikala.__file__).startswith(REPO), tonnikala.__file__
    import tonnikala.runtime.python as rp

    is_c = rp.Buffer is not rp._TKPythonBufferImpl if hasattr(rp, "_TKPythonBufferImpl") else None
    if is_c is not None and is_c != (buffer == "c"):
        raise core.HarnessError("wanted the %s buffer, got %r" % (buffer, rp.Buffer))
    # import all the rest of the package, so that no run imports anything
    for m in pkgutil.walk_packages([os.path.join(REPO, "tonnikala")], "tonnikala."):
        if m.name.startswith(("tonnikala.pyramid", "tonnikala.i18n")):
            continue
        try:
            __import__(m.name)
        except Exception:
            pass
    return tonnikala


def import_optional(name):
    return importlib.import_module(name)
