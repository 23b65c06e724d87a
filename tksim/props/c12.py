"""C12: memory exhaustion in the accelerated buffer is an ordinary error."""
import gc
import functools
import hashlib
import sys

from .. import core, renderlib as rl
from ..core import Violation

ID = "C12"
RUNS = {"quick": 8000, "thorough": 400000}
BUFFERS = ("c",)
# freed memory is overwritten, so that use after free shows
ENV = {"PYTHONMALLOC": "debug"}
REAL = ["tonnikala/runtime/_buffer.c (compiled from the working tree)", "markupsafe", "CPython's allocators"]
STUBS = ["memory exhaustion (_testcapi.set_nomemory: the n-th allocation, or all from the n-th on, fail)"]
RULE = ("histories of 3-10 operations on 2-3 C buffers; for every operation of the history, every allocation it makes "
        "fails in turn, once alone and once with all later ones; after each the outcome, the contents of all buffers, "
        "their further use, and the reference counts of all arguments are checked, and the same is repeated to see "
        "that no memory stays allocated; a crash of the interpreter is a violation; "
        "non-trivial: an allocation failure struck inside an operation")
LEVEL = "exploration"
TECHNIQUE = "seeded histories, every allocation of every operation failing in turn"


def draw_sched(rng):
    return {"policy": "fixed"}


TEXTS = ["", "x", "<b>&", "é", "☃☃", "\U0001f600", "a" * 600, "\"'" * 40, "ÿ" * 200]


def draw_arg(rng, nb):
    r = rng.random()
    if r < 0.3:
        return ["s", rng.choice(TEXTS)]
    if r < 0.45:
        return ["m", rng.choice(TEXTS)]
    if r < 0.62:
        return ["b", rng.randrange(nb)]
    if r < 0.75:
        return ["j", rng.choice([None, True, False, 0, 7, 1234567, 2.5, 10 ** 30])]
    return ["o", rng.choice(["str", "str", "html", "sub", "raise", "htmlraise"]), rng.choice(TEXTS)]


def draw_op(rng, nb):
    b = rng.randrange(nb)
    r = rng.random()
    if r < 0.45:
        # (CPython keeps up to 2000 tuples of length 20 without using them)
        n = rng.choice([0, 1, 2, 3, 5, 9, 17])
        return {"op": "call", "b": b, "args": [draw_arg(rng, nb) for _ in range(n)]}
    if r < 0.75:
        return {"op": "attr", "b": b, "args": [
            ["s", rng.choice(["class", "checked"])] if rng.random() < 0.7 else draw_arg(rng, nb), draw_arg(rng, nb)]}
    if r < 0.9:
        return {"op": rng.choice(["join", "str"]), "b": b}
    return {"op": "new", "b": b}


def generate(rng, tier):
    nb = rng.randint(2, 3)
    return {"nb": nb, "ops": [draw_op(rng, nb) for _ in range(rng.randint(2, 9))]}


def shrinks(plan):
    for c in rl.drop_each(plan["ops"]):
        yield dict(plan, ops=c)
    for i, o in enumerate(plan["ops"]):
        for c in rl.drop_each(o.get("args") or []):
            if o["op"] == "call":
                yield dict(plan, ops=plan["ops"][:i] + [dict(o, args=c)] + plan["ops"][i + 1:])


def setup():
    global tc, Buffer, escape, GC
    import _testcapi as tc
    import gc as GC
    from tonnikala.runtime.python import Buffer, escape


def model_text(a, bufs):
    """(text as output, text as attribute value or None/True, exception)"""
    from tksim.tmpl import esc_text

    k = a[0]
    if k == "s":
        return a[1], esc_text(a[1]), None
    if k == "m":
        return a[1], a[1], None
    if k == "b":
        return bufs[a[1]], bufs[a[1]], None
    if k == "j":
        return str(a[1]), a[1] if a[1] is None or isinstance(a[1], bool) else str(a[1]), None
    kind, text = a[1:]
    if kind == "str":
        return text, esc_text(text), None
    if kind == "html":
        return "S" + text, text, None
    if kind == "sub":
        return text + "!", esc_text(text + "!"), None
    if kind == "raise":
        return None, None, ValueError
    return "S" + text, ValueError, None     # htmlraise


class O(object):
    def __init__(self, text):
        self.text = text


class OStr(O):
    def __str__(self):
        return self.text


class OHtml(O):
    def __str__(self):
        return "S" + self.text

    def __html__(self):
        return self.text


class OSub(str):
    def __str__(self):
        return str.__str__(self) + "!"


# (int("boom") raises without a Python frame: the interpreter itself loses the
# error of a Python function that runs out of memory while it raises)
class ORaise(O):
    __str__ = staticmethod(functools.partial(int, "boom"))


class OHtmlRaise(OHtml):
    __html__ = staticmethod(functools.partial(int, "boom"))


CLASSES = {"str": OStr, "html": OHtml, "sub": OSub, "raise": ORaise, "htmlraise": OHtmlRaise}


OWN = tuple(CLASSES.values())


def real_value(a, bufs):
    from markupsafe import Markup

    k = a[0]
    if k == "m":
        return Markup(a[1])
    if k == "b":
        return bufs[a[1]]
    if k == "o":
        return CLASSES[a[1]](a[2])
    return a[1]


def steps(o, bufs):
    """Texts of buffer o["b"] as the operation proceeds, exception, result."""
    cur = bufs[o["b"]]
    out = [cur]
    if o["op"] == "call":
        for a in o["args"]:
            st = list(bufs)
            st[o["b"]] = cur
            t, _, e = model_text(a, st)
            if e is not None:
                return out, e
            cur += t
            out.append(cur)
    elif o["op"] == "attr":
        n, v = o["args"]
        _, val, e = model_text(v, bufs)
        if val is ValueError:
            val, e = None, ValueError
        if val is None and e is None or val is False:
            return out, None
        if e is not None:
            return out, e
        name, _, en = model_text(n, bufs)
        for piece in (" ", name, '="', name if val is True else val, '"'):
            if piece is None:
                return out, en
            cur += piece
            out.append(cur)
    return out, None


def attr_self(o):
    """The name or value is the buffer itself (whose contents grow meanwhile)."""
    return o["op"] == "attr" and any(a[0] == "b" and a[1] == o["b"] for a in o["args"])


def execute(env):
    plan = env.plan
    ops = plan["ops"]
    gc.freeze()         # (so that collections take no time)
    digest = hashlib.blake2b(digest_size=6)
    texts = [""] * plan["nb"]
    for i, o in enumerate(ops):
        bounds, exc = steps(o, texts)
        if attr_self(o):
            # (markup of the buffer at the time it is escaped, and again)
            bounds = None
        for mode in ("none", "single", "rest"):
            k = 0
            while True:
                hit = one(env, plan, i, o, texts, bounds, exc, mode, k)
                digest.update(b"%d%s%d" % (i, mode.encode(), k))
                if mode == "none" or not hit or k > 300:
                    break
                k += 1
                env.nontrivial = True
                env.sim.fault("nomemory_" + mode)
        # go on without a fault
        bufs = build(plan, ops[:i + 1])
        texts = [b.join() for b in bufs]
        if bounds is not None and o["op"] != "new" and texts[o["b"]] != bounds[-1]:
            raise Violation("wrong-contents", "op %d %.200r without a fault: %.200r, expected %.200r" % (
                i, o, texts[o["b"]], bounds[-1]))
    env.measure = digest.hexdigest()
    env.sim.log("ops", len(ops), digest.hexdigest())


def build(plan, ops):
    bufs = [Buffer() for _ in range(plan["nb"])]
    for o in ops:
        b = bufs[o["b"]]
        if o["op"] == "new":
            bufs[o["b"]] = Buffer()
            continue
        args = tuple([real_value(a, bufs) for a in o.get("args", ())])
        f = {"call": b, "attr": b.output_boolean_attr, "join": b.join, "str": b.__str__}[o["op"]]
        try:
            f(*args)
        except ValueError:
            pass
    return bufs


def fault_call(f, args, mode, k):
    """f(*args) while allocations fail."""
    r = exc = None
    # a full collection empties the free lists of the interpreter, from which
    # objects are made without an allocation
    gc.collect()
    if mode == "single":
        tc.set_nomemory(k, k + 1)
    elif mode == "rest":
        tc.set_nomemory(k)
    try:
        r = f(*args)
    except BaseException as e:
        exc = e
    finally:
        tc.remove_mem_hooks()
    return r, exc


def attempt(plan, i, o, mode, k):
    """One faulted execution; returns everything to check."""
    bufs = build(plan, plan["ops"][:i])
    b = bufs[o["b"]]
    args = tuple([real_value(a, bufs) for a in o.get("args", ())])
    if o["op"] == "new":
        f = Buffer
    else:
        f = {"call": b, "attr": b.output_boolean_attr, "join": b.join, "str": b.__str__}[o["op"]]
    rc0 = [sys.getrefcount(a) for a in args] + [sys.getrefcount(b), sys.getrefcount(escape)]
    r, exc = fault_call(f, args, mode, k)
    if exc is not None:
        exc.__traceback__ = None
        exc.__context__ = None
    name = type(exc).__name__ if exc is not None else None
    msg = str(exc)
    exc = None
    rc1 = [sys.getrefcount(a) for a in args] + [sys.getrefcount(b), sys.getrefcount(escape)]
    texts = [x.join() for x in bufs]
    return bufs, args, r, name, msg, rc0, rc1, texts


def held(o, args, b):
    """How many references to each argument the buffer may keep."""
    return [sum(1 for y in args if y is a or isinstance(y, O) and y.text is a) for a in args]


def one(env, plan, i, o, before, bounds, exc, mode, k):
    where = "op %d %.400r of %d, %s allocation %d failing" % (i, o, len(plan["ops"]), {
        "none": "no", "single": "only", "rest": "every allocation from"}[mode], k)
    bufs, args, r, name, msg, rc0, rc1, texts = attempt(plan, i, o, mode, k)
    hit = name == "MemoryError"
    if name is not None and name != "MemoryError" and (exc is None or name != exc.__name__) and not (
            bounds is None and name == "ValueError"):
        raise Violation("wrong-error", "%s: %s: %s" % (where, name, msg))
    for j, t in enumerate(texts):
        if j != o["b"] or o["op"] in ("join", "str", "new"):
            if t != before[j]:
                raise Violation("wrong-contents", "%s: buffer %d was %.200r, is %.200r" % (where, j, before[j], t))
    t = texts[o["b"]]
    if o["op"] in ("call", "attr") and bounds is not None:
        if name is None and t != bounds[-1]:
            raise Violation("wrong-contents", "%s: it succeeded, the buffer is %.200r, not %.200r" % (where, t, bounds[-1]))
        if t not in bounds:
            raise Violation("wrong-contents", "%s (%s): the buffer is %.200r, expected one of %.300r" % (
                where, name, t, bounds))
    if o["op"] in ("join", "str") and name is None and r != before[o["b"]]:
        raise Violation("wrong-contents", "%s returned %.200r, not %.200r" % (where, r, before[o["b"]]))
    if o["op"] == "new" and name is None and (type(r) is not Buffer or r.join() != ""):
        raise Violation("wrong-contents", "%s returned %r" % (where, r))
    # references: strings may be kept by the buffer, at most once per use
    # (a new buffer that exists holds the escape function)
    mult = held(o, args, bufs[o["b"]]) + [0, 1 if o["op"] == "new" and name is None else 0]
    for j in range(len(rc0)):
        if rc0[j] > 1 << 28:
            continue        # immortal
        d = rc1[j] - rc0[j]
        # (as a name with the value True it is kept twice)
        if d < 0 or not any([a[0] == "b" for a in o.get("args", ())]) and d > mult[j] * (2 if o["op"] == "attr" else 1):
            raise Violation("references", "%s (%s): the references to %s changed by %d" % (
                where, name, "argument %d" % j if j < len(args) else ["the buffer", "escape"][j - len(args)], d))
    # still usable
    b = bufs[o["b"]]
    b("tail", 5)
    b.output_boolean_attr("a", "<")
    if b.join() != t + 'tail5 a="&lt;"':
        raise Violation("unusable", "%s: after more appends: %.200r" % (where, b.join()))
    c = Buffer()
    c(b)
    if c.join() != b.join():
        raise Violation("unusable", "%s: appended to another buffer: %r" % (where, c.join()))
    a0 = list(args)
    del b, c, bufs, args, r
    for j in range(len(a0)):
        if type(a0[j]) not in OWN:
            continue
        if sum(1 for x in a0 if x is a0[j]) == 1 and sys.getrefcount(a0[j]) > 2:
            raise Violation("references", "%s: argument %d keeps %d references after the buffers are gone" % (
                where, j, sys.getrefcount(a0[j]) - 2))
    del a0
    # nothing stays allocated
    # (extending an empty list by another leaks in the interpreter itself when
    # memory runs out)
    cpython = hit and before[o["b"]] == "" and any([a[0] == "b" for a in o.get("args", ())])
    if ((k + i) % 3 == 0 or mode == "none" or o["op"] == "new") and not cpython:
        grown = []
        for _ in range(4):
            n0 = sys.getallocatedblocks()
            for _ in range(16):
                attempt(plan, i, o, mode, k)
            d = sys.getallocatedblocks() - n0
            grown.append(d)
            if d < 12:      # (one too few can stay, for other reasons)
                break
        else:
            raise Violation("leak", "%s: blocks left allocated by 16 repetitions: %r" % (where, grown))
    return hit
