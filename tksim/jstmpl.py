"""Browser templates: the printer and the reference interpreter for js:
templates, on the same template data as tmpl.py."""
import json

from . import tmpl
from .tmpl import Boom, Fn, ModelObj, Raw, Scope


class Undef(object):
    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False


UNDEF = Undef()


def js(e):
    k = e[0]
    if k == "v":
        return e[1]
    if k == "c":
        return json.dumps(e[1], ensure_ascii=False)
    if k == "p":
        return "t(%d, %s)" % (e[1], js(e[2]))
    if k == "+":
        return "(\"\" + %s + %s)" % (js(e[1]), js(e[2]))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(js(a) for a in e[2]))
    if k == "L":
        return "[%s]" % ", ".join(js(a) for a in e[1])
    if k == "not":
        return "!%s" % js(e[1])
    if k == "lit":
        return "literal(%s)" % js(e[1])
    if k == "dict":
        return "[%s]" % ", ".join("[%s, %s]" % (json.dumps(a), js(b)) for a, b in e[1])
    if k == "?":
        return "(%s ? %s : %s)" % (js(e[1]), js(e[2]), js(e[3]))
    if k == "cm":
        return "(%s, %s)" % (js(e[1]), js(e[2]))
    if k in ("&&", "||"):
        return "(%s %s %s)" % (js(e[1]), k, js(e[2]))
    if k == "lam":
        return "(function (%s) { return %s; })(%s)" % (e[1], js(e[2]), js(e[3]))
    if k == "obj":
        return "({%s: %s}).%s" % (e[1], js(e[2]), e[1])
    if k == "idx":
        return "[%s][%d]" % (", ".join(js(x) for x in e[1]), e[2])
    raise ValueError(e)


class Printer(tmpl.Printer):
    bare = True

    def ex(self, e, before=""):
        # a comma operator at the top needs no parentheses, except in
        # assignments
        return js(e)[1:-1] if e[0] == "cm" and self.bare else js(e)

    def vars(self, vs):
        self.bare = False
        try:
            return tmpl.Printer.vars(self, vs)
        finally:
            self.bare = True

    def node(self, n):
        if n[0] == "py":
            self.w("<?js var %s = %s; ?>" % (n[1], js(n[2])))
        else:
            tmpl.Printer.node(self, n)


def source(f):
    p = Printer()
    p.file(f)
    return "".join(p.out).replace("py:", "js:").replace("xmlns:py", "xmlns:js")


class Model(tmpl.Model):
    """``names``: every variable a template can mention."""

    def __init__(self, files, names, globs, on_probe=None):
        tmpl.Model.__init__(self, files, on_probe)
        self.names, self.globs = names, globs

    # JavaScript's String(v)
    def text(self, v):
        if v is None:
            return "null"
        if v is True or v is False:
            return "true" if v else "false"
        if isinstance(v, ModelObj):
            return v.raw()
        if isinstance(v, float) and v == int(v):
            return str(int(v))
        if isinstance(v, list):
            return ",".join("" if x is None or x is UNDEF else self.text(x) for x in v)
        if v is UNDEF:
            return "undefined"
        return str(v)

    def html(self, v):
        if isinstance(v, ModelObj):
            v = v.convert()
        if isinstance(v, Raw):
            return str(v)
        return tmpl.esc_text(self.text(v))

    def attr(self, name, v, out):
        tmpl.Model.attr(self, name, None if v is UNDEF else v, out)

    def bind(self, name, ctx, orig=None):
        tmpl.Model.bind(self, name, ctx, orig)
        return ctx

    def call(self, fn, args):
        sc = getattr(fn, "scope", None)
        while sc is not None and sc.parent is not None:
            sc = sc.parent
        if sc is not None:
            for n in self.names:
                if n not in sc:
                    sc[n] = self.globs.get(n, UNDEF)
        return tmpl.Model.call(self, fn, args)

    def ev(self, e, sc):
        k = e[0]
        if k == "+":
            a = str(self.text(self.ev(e[1], sc)))
            return a + str(self.text(self.ev(e[2], sc)))
        if k == "lit":
            return Raw(self.text(self.ev(e[1], sc)))
        if k == "dict":
            return dict((a, self.ev(b, sc)) for a, b in e[1])
        if k == "?":
            return self.ev(e[2] if self.ev(e[1], sc) else e[3], sc)
        if k == "cm":
            self.ev(e[1], sc)
            return self.ev(e[2], sc)
        if k == "&&":
            return self.ev(e[1], sc) and self.ev(e[2], sc)
        if k == "||":
            return self.ev(e[1], sc) or self.ev(e[2], sc)
        if k == "obj":
            return self.ev(e[2], sc)
        if k == "idx":
            return [self.ev(x, sc) for x in e[1]][e[2]]
        return tmpl.Model.ev(self, e, sc)

    def node(self, n, sc, out):
        if n[0] == "for":
            # a function of the loop variable
            for i, v in enumerate(self.iterate(n[2], sc)):
                inner = Scope(sc)
                inner.update(zip(n[1].split(", "), (v, i)))
                self.nodes(n[3], inner, out)
        else:
            tmpl.Model.node(self, n, sc, out)


    def element(self, n, sc, out):
        _, tag, attrs, dirs, kids = n
        if "if" in dirs and not self.top(dirs["if"], sc):
            return
        if "for" not in dirs:
            self.element_body(n, sc, out)
            return
        var, e = dirs["for"]
        for i, v in enumerate(self.iterate(e, sc)):
            inner = Scope(sc)
            inner.update(zip(var.split(", "), (v, i)))
            self.element_body(n, inner, out)
