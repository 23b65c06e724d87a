"""What a compilation gives, in a form that can be compared between processes.

An item is {"lang": "py"|"js", "src": text, "opts": {...}, "env": ..., "ctxs":
[context data], "fails": [probe id or None]}.
"""
import re

from . import tmpl

FILENAME = "<sim c20>"
ADDRESS = re.compile(r"0x[0-9a-f]+")


class Failed(Exception):
    pass


class Probe(object):
    def __init__(self, fail):
        self.log, self.fail = [], fail

    def __call__(self, k, v=None):
        self.log.append(k)
        if k == self.fail:
            raise Failed(k)
        return v


def describe(e):
    """An error that a compilation raised."""
    msg = str(e)
    lineno = getattr(e, "lineno", None)
    return [type(e).__name__, ADDRESS.sub("0x", msg), lineno]


def compile_item(item, loaders):
    """("js", text), ("py", template) or ("error", description)"""
    o = item["opts"]
    try:
        if item["lang"] == "js":
            return "js", loaders.js(o).load_string(item["src"], filename=FILENAME)
        return "py", loaders.py(o).load_string(item["src"], filename=FILENAME)
    except Exception as e:
        return "error", describe(e)


def render(template, ctx, fail):
    p = Probe(fail)
    c = {k: tmpl.real_value(v) for k, v in ctx.items()}
    c["t"] = p
    c["gettext"] = lambda m: "[%s]" % m
    try:
        out = ["text", str(template.render(c))]
    except Exception as e:
        tb, at = e.__traceback__, []
        while tb is not None:
            if tb.tb_frame.f_code.co_filename == FILENAME:
                at.append(tb.tb_lineno)
            tb = tb.tb_next
        out = ["failed", describe(e), at]
    return out + [p.log]


class Loaders(object):
    """One loader for each set of options (or new ones)."""

    def __init__(self, keep=True):
        self.keep, self.known = keep, {}

    def get(self, cls, opts):
        key = cls.__name__, tuple(sorted(opts.items()))
        if key in self.known:
            return self.known[key]
        v = cls(**opts)
        if self.keep:
            self.known[key] = v
        return v

    def js(self, opts):
        from tonnikala.loader import JSLoader

        return self.get(JSLoader, opts)

    def py(self, opts):
        from tonnikala.loader import Loader

        return self.get(Loader, opts)


def result(item, loaders):
    what, v = compile_item(item, loaders)
    if what == "py":
        return [what, [render(v, c, f) for c, f in zip(item["ctxs"], item["fails"])]]
    return [what, v]
