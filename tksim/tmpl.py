"""Templates as data: a generator, a printer and an independent reference
interpreter.

A *file set* is {name: file}; a file is
  {"ext": parent-or-None, "imports": [[href, alias]...], "defs": [def...],
   "body": [node...]} -- for an extending file the body holds only blocks.

Nodes (JSON):
  ["T", text]                      static text (html-safe characters only)
  ["E", expr]                      ${expr}
  ["V", name]                      $name
  ["el", tag, attrs, dirs, kids]   an element; attrs: [[name, value]...] with
        value ["c", text] | ["x", expr] | ["m", [text|expr ...]] | ["e"] (no value)
        dirs: {"if": expr, "for": [var, expr], "with": [[v, expr]...],
               "strip": expr|"" , "content": expr, "replace": expr, "attrs": expr}
  ["if", expr, kids] ["for", var, expr, kids] ["with", [[v, expr]...], kids]
  ["def", name, args, kids]  ["block", name, kids]  ["imp", href, alias]
  ["cm", text] comment       ["py", var, expr]  <?python var = expr ?>
  ["raw", tag, kids]               <script>/<style> with raw text
  ["TE", text]                     static text with any characters
Expressions:
  ["v", name] ["c", const] ["p", k, expr]  (a probe: t(k, expr))
  ["+", a, b] ["call", name, [args]] ["L", [exprs]] ["not", a] ["lit", e]
  ["at", alias, name, [args]]  alias.name(args)   ["dict", [[k, expr]...]]
  ["gt", msgid] gettext('...')   ["gt", msgid, code]
  ["fs", [text|expr...]] an f-string   ["bi", "str"|"len", e] a builtin
  ["ife", test, a, b] (a if test else b)   ["and"|"or", a, b]
  ["lam", arg, body, value] (lambda arg: body)(value)
  ["lc", elem, var, list] a list comprehension   ["gj", text, elem, var, list] 'text'.join(...)
  ["kw", name, [[arg, expr]...]] name(arg=...)   ["dec", name] (name - 1)
  ["nl", n, e] (e) on a line n further down
A text part of a ["m", ...] attribute may also be ["ref", text], written with
character references for newlines, as may a node ["TR", text].
A file may have "style": how newlines are written between attributes, with
variables, around code, before the document and at the end of lines.
A def may have a fifth item, {arg: default expression}.
"""


import copy
import os


# ---------------------------------------------------------------- printing

def py(e):
    k = e[0]
    if k == "v":
        return e[1]
    if k == "c":
        return repr(e[1])
    if k == "p":
        return "t(%d, %s)" % (e[1], py(e[2]))
    if k == "+":
        return "(%s + %s)" % (py(e[1]), py(e[2]))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(py(a) for a in e[2]))
    if k == "at":
        return "%s.%s(%s)" % (e[1], e[2], ", ".join(py(a) for a in e[3]))
    if k == "L":
        return "[%s]" % ", ".join(py(a) for a in e[1])
    if k == "not":
        return "not %s" % py(e[1])
    if k == "lit":
        return "literal(%s)" % py(e[1])
    if k == "dict":
        return "{%s}" % ", ".join("%r: %s" % (a, py(b)) for a, b in e[1])
    if k == "dform":
        return DFORMS[e[1]] % py(e[2])
    if k == "dgen":
        return "((%s, %s) for %s, %s in %s.items())" % (e[1] + "k", py(e[2]), e[1] + "k", e[1], py(e[3]))
    if k == "gt":
        return e[2] if len(e) > 2 else "gettext(%r)" % e[1]
    if k == "fs":
        return "f'%s'" % "".join(x.replace("{", "{{").replace("}", "}}") if isinstance(x, str) else "{ %s }" % py(x)
                                 for x in e[1])
    if k == "bi":
        return "%s(%s)" % (e[1], py(e[2]))
    if k == "ife":
        return "(%s if %s else %s)" % (py(e[2]), py(e[1]), py(e[3]))
    if k in ("and", "or"):
        return "(%s %s %s)" % (py(e[1]), k, py(e[2]))
    if k == "same":
        return SAME[e[1]] % py(e[2])
    if k == "lam":
        return "(lambda %s: %s)(%s)" % (e[1], py(e[2]), py(e[3]))
    if k == "lc":
        return "[%s for %s in %s]" % (py(e[1]), e[2], py(e[3]))
    if k == "gj":
        return "%r.join(%s for %s in %s)" % (e[1], py(e[2]), e[3], py(e[4]))
    if k == "kw":
        return "%s(%s)" % (e[1], ", ".join("%s=%s" % (a, py(v)) for a, v in e[2]))
    if k == "dec":
        return "(%s - 1)" % e[1]
    if k == "nl":
        return "(%s%s%s)" % ("\n" * e[1], py(e[2]), "\n" * (e[1] - 1))
    raise ValueError(e)


def printed(e):
    """The expressions below ``e`` in the order they are written."""
    k = e[0]
    if k in ("p", "bi", "nl", "same", "dform"):
        return [e[2]]
    if k == "dgen":
        return e[2:4]
    if k in ("+", "and", "or"):
        return e[1:3]
    if k == "call":
        return e[2]
    if k == "at":
        return e[3]
    if k == "L":
        return e[1]
    if k in ("not", "lit"):
        return [e[1]]
    if k in ("dict",):
        return [b for _, b in e[1]]
    if k == "kw":
        return [b for _, b in e[2]]
    if k == "fs":
        return [x for x in e[1] if not isinstance(x, str)]
    if k == "ife":
        return [e[2], e[1], e[3]]
    if k == "lam":
        return e[2:4]
    if k == "lc":
        return [e[1], e[3]]
    if k == "gj":
        return [e[2], e[4]]
    return []


# attribute mappings in other forms
DFORMS = ["list(%s.items())", "iter(%s.items())", "(kv for kv in %s.items())", "%s.items()", "(%s or None)", "dict(%s)",
          "tuple(%s.items())", "map(tuple, %s.items())"]


def dform(i, d):
    if i in (0, 6):
        return list(d.items())
    if i in (1, 2, 7):
        return iter(list(d.items()))
    return {3: d.items(), 4: d or None, 5: d}[i]


# expressions that have the value of the one in them
SAME = ["max([%s])", "[%s][0]", "{'k': %s}['k']", "(%s,)[-1]", "next(iter([%s]))", "sum([[%s]], [])[0]", "dict(k=%s)['k']",
        "[*[%s]].pop()", "sorted([%s])[0]", "(%s if True else None)", "(False or %s)", "(True and %s)", "min([%s])"]
CALLS = ("p", "call", "at", "kw", "bi", "lit")      # a failure in these is on their first line


def q(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")


class Printer(object):
    def __init__(self):
        self.out = []
        self.style = {}
        self.raw = False
        self.tal = False
        self.line = 1
        self.idlines = {}       # id(expression or block node) -> line, or first and last

    def w(self, s):
        self.out.append(s)
        self.line += s.count("\n")

    def lay(self, e, line):
        """The lines of ``e`` and what is below it, starting on ``line``."""
        first = line
        if e[0] == "nl":
            line += e[1]
        for x in printed(e):
            line = self.lay(x, line)
        if e[0] == "nl":
            line += e[1] - 1
        self.idlines[id(e)] = first if e[0] in CALLS or line == first else (first, line)
        return line

    def ex(self, e, before=""):
        """An expression that is written after ``before``, which is not yet written."""
        line = self.line + before.count("\n")
        last = self.lay(e, line)
        if last != line:
            self.idlines[id(e)] = (line, last)
        return py(e)

    def nodes(self, ns):
        for n in ns:
            self.node(n)

    def vars(self, vs):
        out = ""
        for v, e in vs:
            if out:
                out += self.style.get("vars", "; ")
            out += "%s = " % v
            out += self.ex(e, out)
        return out

    def node(self, n):
        k = n[0]
        w = self.w
        if k == "T":
            w(n[1])
        elif k == "TE":
            w(q(n[1]).replace("$", "$$"))
        elif k == "TR":
            w(refs(n[1]))
        elif k == "E":
            w("${%s}" % (self.ex(n[1]) if self.raw else q(self.ex(n[1]))))
        elif k == "V":
            self.idlines[id(n)] = self.line
            w("$%s" % n[1])
        elif k == "cm":
            w("<!--%s-->" % n[1])
        elif k == "py":
            s = "<?python%s%s = " % (self.style.get("code", " "), n[1])
            w("%s%s ?>" % (s, self.ex(n[2], s)))
        elif k == "raw":
            w("<%s>" % n[1])
            self.raw = True
            self.nodes(n[2])
            self.raw = False
            w("</%s>" % n[1])
        elif k == "if":
            w('<py:if test="%s">' % q(self.ex(n[1])))
            self.nodes(n[2])
            w("</py:if>")
        elif k == "for":
            w('<py:for each="%s in %s">' % (n[1], q(self.ex(n[2]))))
            self.nodes(n[3])
            w("</py:for>")
        elif k == "with":
            w('<py:with vars="')
            w('%s">' % q(self.vars(n[1])))
            self.nodes(n[2])
            w("</py:with>")
        elif k == "def":
            dv = n[4] if len(n) > 4 else {}
            w('<py:def function="%s(' % n[1])
            for i, a in enumerate(n[2]):
                w(", " if i else "")
                w(a if a not in dv else "%s=" % a)
                w(q(self.ex(dv[a])) if a in dv else "")
            w(')">')
            self.nodes(n[3])
            w("</py:def>")
        elif k == "block":
            self.idlines[id(n)] = self.line
            w('<py:block name="%s">' % n[1])
            self.nodes(n[2])
            w("</py:block>")
        elif k == "imp":
            w('<py:import href="%s" alias="%s"/>' % (n[1], n[2]))
        elif k == "el":
            self.element(n)
        else:
            raise ValueError(n)

    def element(self, n):
        _, tag, attrs, dirs, kids = n
        w = self.w
        sp = self.style.get("attrs", " ")
        case = self.style.get("case", 0)
        if case > 1:
            tag = tag.upper()
        w("<" + tag)
        for name, v in attrs:
            w(sp + (name[:2] + name[2:].title() if case else name))
            if v[0] == "e":
                continue
            w(self.style.get("eq", "="))
            if v[0] == "c":
                w('"%s"' % q(v[1]))
            elif v[0] == "x":
                w('"${%s}"' % q(self.ex(v[1])))
            else:
                w('"')
                for part in v[1]:
                    if isinstance(part, str):
                        w(q(part))
                    elif part[0] == "ref":
                        w(refs(part[1]))
                    else:
                        w("${%s}" % q(self.ex(part)))
                w('"')
        for d in ("if", "for", "with", "strip", "content", "replace", "attrs"):
            if d not in dirs:
                continue
            v = dirs[d]
            w(sp)
            name = self.tal and TAL[d] or "py:" + d
            w(name.upper() if case > 2 else name)
            w(self.style.get("eq", "=") + '"')
            if d == "for":
                s = "%s in %s" % (v[0], self.ex(v[1]))
            elif d == "with":
                s = self.vars(v)
            elif v == "":
                s = ""
            else:
                s = self.ex(v)
            w(q(s) + '"')
        if tag.lower() in VOID:
            w("/>")
        else:
            w(">")
            self.nodes(kids)
            w("</%s>" % tag)

    def file(self, f):
        if f.get("raw_source") is not None:
            self.w(f["raw_source"])
            return
        self.style = f.get("style", {})
        self.w(self.style.get("before", ""))
        if f.get("tal"):
            self.tal = True
            self.w("<html>\n")
        elif f.get("ext"):
            self.w('<py:extends href="%s">\n' % f["ext"])
        else:
            self.w('<html xmlns:py="http://www.tonnikala.org/ns">\n')
        for href, alias in f.get("imports", ()):
            self.w('<py:import href="%s" alias="%s"/>\n' % (href, alias))
        for d in f.get("defs", ()):
            self.node(d)
            self.w("\n")
        self.nodes(f["body"])
        self.w("\n</py:extends>" if f.get("ext") else "\n</html>")
        if f.get("pad"):
            self.w("\n" * f["pad"])


VOID = ("br", "hr", "input", "img")
TAL = {"if": "tal:condition", "for": "tal:repeat", "strip": "tal:omit-tag", "content": "tal:content",
       "replace": "tal:replace", "attrs": "tal:attrs"}


def refs(s):
    return q(s).replace("\n", "&#10;").replace("\t", "&#x9;")


def source(f):
    p = Printer()
    p.file(f)
    s = "".join(p.out)
    return s.replace("\n", "\r\n") if p.style.get("crlf") else s


def id_lines(files):
    """id(expression) -> line, for the very objects in ``files``."""
    out = {}
    for f in files.values():
        p = Printer()
        p.file(f)
        out.update(p.idlines)
    return out


# ---------------------------------------------------------- reference model

class Raw(str):
    """Already safe text (concatenation escapes the other side)."""

    def __add__(self, o):
        return Raw(str.__add__(self, o if isinstance(o, Raw) else esc_text(o)))

    def __radd__(self, o):
        return Raw(esc_text(o) + str(self))


ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}


def esc_text(s):
    return "".join(ESC.get(c, c) for c in s)


class Boom(Exception):
    """The model's notion of 'evaluation stops here'."""

    def __init__(self, key, exc=None):
        Exception.__init__(self, key)
        self.key = key
        self.exc = exc


class ModelObj(object):
    """A value with a conversion of its own; convert() -> str or Raw."""

    def convert(self):
        raise NotImplementedError

    def raw(self):
        return str(self.convert())

    def plain(self):
        return str(self.convert())


TR_ATTRS = ("title", "alt", "placeholder", "value", "caption")


def split_message(text):
    """(leading space, message, trailing space)"""
    msg = text.strip()
    if not msg:
        return text, "", ""
    i = text.index(msg)
    return text[:i], msg, text[i + len(msg):]


class Scope(dict):
    orig = None

    def __init__(self, parent=None):
        self.parent = parent

    def find(self, name):
        s = self
        while s is not None:
            if name in s:
                return s[name]
            s = s.parent
        raise Boom(("name", name))


class Fn(object):
    def __init__(self, name, args, body, scope, fname, defaults=None):
        self.name, self.args, self.body, self.scope, self.fname = name, args, body, scope, fname
        self.defaults = defaults or {}


class Model(object):
    """Interprets a file set.  ``on_probe(k, value)`` is told every probe and
    may raise Boom; values are plain data (str/int/bool/None/list) or Raw."""

    def __init__(self, files, on_probe=None, conv=None, gettext=None, translatable=False):
        self.files = files
        self.on_probe = on_probe or (lambda k, v: v)
        self.conv = conv
        self.gettext = gettext or (lambda msg: msg)
        self.tr = translatable
        self.in_raw = False
        self.stack = []         # [file, expression] of every active construct

    def text(self, v):
        """Text of a value, taken as markup."""
        if isinstance(v, ModelObj):
            return v.raw()
        return v if isinstance(v, str) else str(v)

    def plain(self, v):
        """str() of a value."""
        if isinstance(v, ModelObj):
            v = v.plain()
        return str(v)

    def html(self, v):
        """Escaped text of a value."""
        if isinstance(v, ModelObj):
            v = v.convert()
        if self.conv is not None:
            r = self.conv(v)
            if r is not None:
                return r
        if isinstance(v, Raw):
            return str(v)
        return esc_text(str(v))

    def pairs(self, e, d, sc):
        inner = Scope(sc)
        for a, inner[e[1]] in d.items():
            yield a, self.ev(e[2], inner)

    # binding ------------------------------------------------------------
    def bind(self, name, ctx, orig=None):
        """Bind a file into the context mapping ``ctx`` (name -> value/Fn)."""
        f = self.files[name]
        sc = Scope()
        orig = dict(ctx) if orig is None else orig
        sc.orig = orig
        defs = []
        blocks = {}
        self.collect(f["body"], blocks)
        for d in f.get("defs", ()):
            defs.append(d)
        own = {}
        self.stack.append([name, None])
        for href, alias in f.get("imports", ()):
            sc[alias] = self.import_defs(href, orig)
        for d in defs:
            dv = {}
            if len(d) > 4:
                # (left as it is when evaluation fails)
                here = Scope()
                here.update(ctx)
                dv = {a: self.top(d[4][a], here) for a in d[2] if a in d[4]}
            fn = Fn(d[1], d[2], d[3], sc, name, dv)
            ctx.setdefault(d[1], fn)
            own[d[1]] = ctx[d[1]]
        for b, kids in blocks.items():
            fn = Fn(b, [], kids, sc, name)
            ctx.setdefault(b, fn)
            own[b] = ctx[b]
        if not f.get("ext"):
            ctx.setdefault("__main__", Fn("__main__", [], ["MAIN", f], sc, name))
        self.stack[-1][1] = None
        if f.get("ext"):
            self.bind(f["ext"], ctx, orig)
        self.stack.pop()
        # context variables
        for k, v in ctx.items():
            if k not in sc:
                sc[k] = v
        return ctx

    def import_defs(self, href, ctx):
        mod = dict(ctx)
        self.bind(href, mod)
        return {k: v for k, v in mod.items() if not (k in ctx and ctx[k] is v)}

    def collect(self, nodes, blocks):
        for n in nodes:
            if n[0] == "block":
                self.collect(n[2], blocks)
                blocks[n[1]] = n[2]
            elif n[0] == "el":
                self.collect(n[4], blocks)
            elif n[0] == "if":
                self.collect(n[2], blocks)

    def render(self, name, ctx, func="__main__"):
        ctx = dict(ctx)
        self.bind(name, ctx)
        if func not in ctx:
            raise Boom(("key", func))
        return str(self.call(ctx[func], []))

    # evaluation ---------------------------------------------------------
    def call(self, fn, args, kw=None):
        if not isinstance(fn, Fn):
            if callable(fn):
                return fn(*args)
            raise Boom(("call", repr(fn)))
        sc = Scope(fn.scope)
        sc.update(fn.defaults)
        sc.update(kw or {})
        for a, v in zip(fn.args, args):
            sc[a] = v
        out = []
        self.stack.append([fn.fname, None])
        in_raw, self.in_raw = self.in_raw, False
        if fn.body and fn.body[0] == "MAIN":
            f = fn.body[1]
            out.append("<html>\n")
            out.append("\n" * len(f.get("imports", ())))
            out.append("\n" * len(f.get("defs", ())))
            self.nodes(f["body"], sc, out)
            out.append("\n</html>")
            # text after the document element is dropped
            out.append("\n" * f.get("pad", 0))
        else:
            self.nodes(fn.body, sc, out)
        self.in_raw = in_raw
        self.stack.pop()        # (left as it is when evaluation fails)
        return Raw("".join(out))

    def top(self, e, sc):
        """Evaluate an expression as written in the template."""
        self.stack[-1][1] = id(e)
        v = self.ev(e, sc)
        self.stack[-1][1] = id(e)
        return v

    def ev(self, e, sc):
        k = e[0]
        if k == "v":
            return sc.find(e[1])
        if k == "c":
            return e[1]
        if k == "p":
            v = self.ev(e[2], sc)
            self.stack[-1][1] = id(e)
            return self.on_probe(e[1], v)
        if k == "+":
            return self.ev(e[1], sc) + self.ev(e[2], sc)
        if k == "call":
            fn = sc.find(e[1])
            args = [self.ev(a, sc) for a in e[2]]
            self.stack[-1][1] = id(e)
            return self.call(fn, args)
        if k == "at":
            mod = sc.find(e[1])
            if e[2] not in mod:
                raise Boom(("attr", e[2]))
            args = [self.ev(a, sc) for a in e[3]]
            self.stack[-1][1] = id(e)
            return self.call(mod[e[2]], args)
        if k == "L":
            return [self.ev(a, sc) for a in e[1]]
        if k == "not":
            return not self.ev(e[1], sc)
        if k == "lit":
            v = self.ev(e[1], sc)
            self.stack[-1][1] = id(e)
            return Raw(self.text(v))
        if k == "dict":
            return {a: self.ev(b, sc) for a, b in e[1]}
        if k == "dform":
            return dform(e[1], self.ev(e[2], sc))
        if k == "dgen":
            return self.pairs(e, self.ev(e[3], sc), sc)
        if k == "gt":
            return self.gettext(e[1])
        if k == "fs":
            out = []
            for x in e[1]:
                if not isinstance(x, str):
                    x = self.ev(x, sc)
                    self.stack[-1][1] = id(e)
                    x = self.plain(x)
                out.append(x)
            return "".join(out)
        if k == "bi":
            v = self.ev(e[2], sc)
            self.stack[-1][1] = id(e)
            return self.plain(v) if e[1] == "str" else len(v)
        if k == "ife":
            return self.ev(e[2] if self.ev(e[1], sc) else e[3], sc)
        if k == "and":
            return self.ev(e[1], sc) and self.ev(e[2], sc)
        if k == "or":
            return self.ev(e[1], sc) or self.ev(e[2], sc)
        if k == "same":
            return self.ev(e[2], sc)
        if k == "lam":
            inner = Scope(sc)
            inner[e[1]] = self.ev(e[3], sc)
            return self.ev(e[2], inner)
        if k == "lc":
            inner = Scope(sc)
            out = []
            for inner[e[2]] in self.iterate(e[3], sc, e):
                out.append(self.ev(e[1], inner))
            return out
        if k == "gj":
            inner = Scope(sc)
            out = []
            for inner[e[3]] in self.iterate(e[4], sc, e):
                out.append(self.ev(e[2], inner))
            return e[1].join(out)
        if k == "kw":
            fn = sc.find(e[1])
            args = {a: self.ev(v, sc) for a, v in e[2]}
            self.stack[-1][1] = id(e)
            return self.call(fn, [], args)
        if k == "dec":
            return sc.find(e[1]) - 1
        if k == "nl":
            return self.ev(e[2], sc)
        raise ValueError(e)

    def nodes(self, ns, sc, out):
        if not self.tr or self.in_raw:
            for n in ns:
                self.node(n, sc, out)
            return
        # adjacent static texts are one message
        run = []
        for n in ns:
            if n[0] in ("T", "TE", "TR"):
                run.append(n[1])
                continue
            if run:
                self.message("".join(run), out)
                run = []
            self.node(n, sc, out)
        if run:
            self.message("".join(run), out)

    def message(self, text, out):
        """Static text, translated."""
        pre, msg, post = split_message(text)
        out.append(pre)
        if msg:
            out.append(self.html(self.gettext(msg)))
        out.append(post)

    def node(self, n, sc, out):
        k = n[0]
        if k == "T":
            out.append(n[1])
        elif k in ("TE", "TR"):
            out.append(esc_text(n[1]))
        elif k == "E":
            out.append(self.html(self.top(n[1], sc)))
        elif k == "V":
            self.stack[-1][1] = id(n)
            out.append(self.html(sc.find(n[1])))
        elif k == "cm":
            out.append("<!--%s-->" % n[1])
        elif k == "py":
            sc[n[1]] = self.top(n[2], sc)
        elif k == "raw":
            out.append("<%s>" % n[1])
            self.in_raw = True
            self.nodes(n[2], sc, out)
            self.in_raw = False
            out.append("</%s>" % n[1])
        elif k == "if":
            if self.top(n[1], sc):
                self.nodes(n[2], sc, out)
        elif k == "for":
            for v in self.iterate(n[2], sc):
                sc[n[1]] = v
                self.nodes(n[3], sc, out)
        elif k == "with":
            inner = Scope(sc)
            for v, e in n[1]:
                inner[v] = self.top(e, inner)
            self.nodes(n[2], inner, out)
        elif k == "def":
            sc[n[1]] = Fn(n[1], n[2], n[3], sc, self.stack[-1][0],
                          {a: self.top(e, sc) for a, e in (n[4] if len(n) > 4 else {}).items()})
        elif k == "block":
            self.stack[-1][1] = id(n)
            out.append(str(self.call(sc.find(n[1]), [])))
        elif k == "imp":
            top = sc
            while top.parent is not None:
                top = top.parent
            sc[n[2]] = self.import_defs(n[1], top.orig)
        elif k == "el":
            self.element(n, sc, out)
        else:
            raise ValueError(n)

    def iterate(self, e, sc, within=None):
        it = self.ev(e, sc) if within else self.top(e, sc)
        self.stack[-1][1] = id(within or e)
        it = iter(it)
        while True:
            self.stack[-1][1] = id(within or e)
            try:
                v = next(it)
            except StopIteration:
                return
            yield v

    def attr(self, name, v, out):
        if v is None or v is False:
            return
        if v is True:
            out.append(' %s="%s"' % (name, name))
            return
        out.append(' %s="%s"' % (name, self.html(v)))

    def late_attr(self, name, v):
        """A constant attribute that is looked up when the page renders."""
        return self.tr and not self.in_raw and name in TR_ATTRS and (split_message(v[1])[1] or v[1] == "")

    def start_tag(self, n, sc, out):
        _, tag, attrs, dirs, kids = n
        out.append("<" + tag)
        for name, v in attrs:
            if v[0] == "e":
                out.append(" " + name)
            elif v[0] == "c" and not self.late_attr(name, v):
                out.append(' %s="%s"' % (name, esc_text(v[1])))
        for name, v in attrs:
            if v[0] == "c" and self.late_attr(name, v):
                out.append(' %s="' % name)
                self.message(v[1], out)
                out.append('"')
            elif v[0] == "x":
                self.attr(name, self.top(v[1], sc), out)
            elif v[0] == "m":
                out.append(' %s="' % name)
                for part in v[1]:
                    if isinstance(part, str) and self.tr and name in TR_ATTRS:
                        self.message(part, out)
                    elif isinstance(part, str):
                        out.append(esc_text(part))
                    elif part[0] == "ref":
                        out.append(esc_text(part[1]))
                    else:
                        out.append(self.html(self.top(part, sc)))
                out.append('"')
        if "attrs" in dirs:
            m = self.top(dirs["attrs"], sc)
            for a, b in (m.items() if isinstance(m, dict) else m or ()):
                self.attr(a, b, out)

    def element(self, n, sc, out):
        _, tag, attrs, dirs, kids = n
        if "if" in dirs and not self.top(dirs["if"], sc):
            return
        if "for" in dirs:
            var, e = dirs["for"]
            for v in self.iterate(e, sc):
                sc[var] = v
                self.element_body(n, sc, out)
        else:
            self.element_body(n, sc, out)

    def element_body(self, n, sc, out):
        _, tag, attrs, dirs, kids = n
        if "with" in dirs:
            sc = Scope(sc)
            for v, e in dirs["with"]:
                sc[v] = self.top(e, sc)
        if "replace" in dirs:
            out.append(self.html(self.top(dirs["replace"], sc)))
            return
        content = "content" in dirs
        if content:
            kids = [["E", dirs["content"]]]
        strip = None
        if "strip" in dirs:
            strip = True if dirs["strip"] == "" else self.top(dirs["strip"], sc)
        if not strip:
            self.start_tag(n, sc, out)
            if not kids:
                out.append(" />" if tag in VOID else "></%s>" % tag)
            else:
                out.append(">")
        if kids:
            self.nodes(kids, sc, out)
            if "strip" in dirs and dirs["strip"] != "":
                strip = self.top(dirs["strip"], sc)
            if not strip:
                out.append("</%s>" % tag)


# ---------------------------------------------------------------- generator

SAFE = "abcdefg hijkl. XYZ 0123 -_:;()#"
TAGS = ("div", "p", "span", "b", "ul", "li", "td", "title", "textarea", "h1", "em")
BUILTINS = ("format", "filter", "input", "id", "help", "max", "copyright", "license", "type", "object")
ATTRS = ("class", "id", "href", "title", "data-a", "data-b", "alt", "checked")


def decided(c):
    """Is this condition a constant?"""
    while c[0] == "not":
        c = c[1]
    return c[0] == "c"


class Arity(int):
    """The number of arguments of a function some of whose arguments have default values."""


class Gen(object):
    """Draws file sets.  ``vars`` are the names every context provides:
    name -> kind ('s' text, 'l' list of text, 'b' boolean-ish, 'n' number)."""

    def __init__(self, rng, feat=None, probes=True, maxdepth=4):
        self.rng = rng
        self.k = 0
        self.n = 0
        self.probes = probes
        self.maxdepth = maxdepth
        self.feat = feat or {}
        if self.on("tal", False):
            self.feat = dict(self.feat, localdef=False, pycode=False)
        self.taken = set()
        self.context = {}

    def on(self, f, default=True):
        return self.feat.get(f, default)

    def name(self, prefix):
        self.n += 1
        return "%s%d" % (prefix, self.n)

    def public(self, prefix):
        """A name for a function or block; some are names of builtins."""
        names = self.feat.get("names") or self.on("builtins") and BUILTINS
        if names and self.rng.random() < 0.07:
            n = self.rng.choice(names)
            if n not in self.taken:
                self.taken.add(n)
                return n
        return self.name(prefix)

    def text(self, lo=1, hi=8):
        return "".join(self.rng.choice(SAFE) for _ in range(self.rng.randint(lo, hi)))

    def probe(self, e, p=0.7):
        if self.probes and self.rng.random() < p:
            self.k += 1
            return ["p", self.k, e]
        return e

    def strexpr(self, env, p=0.7):
        r = self.rng.random()
        svars = [v for v, k in env.items() if k == "s"]
        nvars = [v for v, k in env.items() if k == "n"]
        if self.on("forms") and r > 0.9:
            return self.form(env, p)
        if r > 0.88 and self.on("jsforms", False):
            return self.jsform(env, p)
        rec = [v for v, k in env.items() if isinstance(k, tuple) and k[0] == "r"]
        if rec and r < 0.1:
            return self.probe(["call", self.rng.choice(rec), [["c", self.rng.randint(0, 4)]]], p * 0.5)
        fns = [v for v, k in env.items() if isinstance(k, tuple) and k[0] == "f"]
        mods = [v for v, k in env.items() if isinstance(k, tuple) and k[0] == "m"]
        if fns and r < 0.22:
            f = self.rng.choice(fns)
            if len(env[f]) > 2 and self.rng.random() < 0.6:
                # by name, in any order, without some that have defaults
                args = [a for a in env[f][2] if a not in env[f][3] or self.rng.random() < 0.5]
                self.rng.shuffle(args)
                return self.probe(["kw", f, [[a, self.strexpr({k: v for k, v in env.items() if v == "s"}, p)]
                                             for a in args]], p * 0.5)
            return self.probe(["call", f, [self.strexpr({k: v for k, v in env.items() if v == "s"}, p)
                                           for _ in range(env[f][1])]], p * 0.5)
        if mods and r < 0.35:
            m = self.rng.choice(mods)
            if env[m][1]:
                fn, na = self.rng.choice(env[m][1])
                if isinstance(na, Arity):
                    na -= self.rng.randint(0, len(na.defaults))
                return self.probe(["at", m, fn, [self.strexpr({k: v for k, v in env.items() if v == "s"}, p)
                                                 for _ in range(na)]], p * 0.5)
        if svars and r < 0.8:
            e = ["v", self.rng.choice(svars)]
        elif nvars and r < 0.9:
            e = ["v", self.rng.choice(nvars)]
        else:
            e = ["c", self.rng.choice(["k<", "&k", "'q'", 'd"d', self.text(1, 4)])]
        e = self.probe(e, p)
        if e[0] != "p" and svars and self.on("plus") and self.rng.random() < 0.15 and e[0] == "v" and e[1] in svars:
            e = ["+", e, self.probe(["v", self.rng.choice(svars)], p)]
        return e

    def form(self, env, p=0.7):
        """Text made by some other form of Python expression."""
        rng = self.rng
        s = {k: v for k, v in env.items() if v == "s"}
        if not self.on("formcalls"):
            env = {k: v for k, v in env.items() if v in ("s", "b", "l", "n")}
        r = rng.random()
        if r < 0.3:
            parts = []
            for _ in range(rng.randint(1, 2)):
                if rng.random() < 0.5:
                    parts.append(rng.choice(["a", " ", "<", "&", "{", "x y"]))
                parts.append(self.strexpr(env, p))
            return ["fs", parts + (["."] if rng.random() < 0.3 else [])]
        if r < 0.35:
            return ["bi", "str", self.strexpr(env, p)]
        if r < 0.45:
            return ["same", rng.randrange(1 if self.on("builtins") else 0, len(SAME)), self.strexpr(env, p)]
        if r < 0.55:
            return ["ife", self.cond(env), self.strexpr(env, p), self.strexpr(env, p)]
        if r < 0.65:
            return [rng.choice(["and", "or"]), self.strexpr(s, p), self.strexpr(s, p)]
        if r < 0.78:
            a = self.name("a")
            return ["lam", a, self.strexpr(dict(s, **{a: "s"}), p), self.strexpr(s, p)]
        if not self.on("gj"):
            return ["bi", "str", self.strexpr(env, p)]
        if r < 0.9 or not self.probes:
            v = self.bound("g", env)
            # (a probe in the generator may not raise StopIteration)
            return ["gj", rng.choice([", ", "", "<"]), ["fs", ["-", ["v", v]]], v, self.listexpr(env)]
        return ["fs", [["bi", "len", self.listexpr(env, "len")]]]

    def jsform(self, env, p):
        """Text made by some other form of JavaScript expression."""
        rng = self.rng
        s = {k: v for k, v in env.items() if v == "s"}
        r = rng.random()
        if r < 0.2:
            return ["cm", self.strexpr(s, p), self.strexpr(env, p)]
        if r < 0.4:
            return ["?", self.cond(env), self.strexpr(env, p), self.strexpr(env, p)]
        if r < 0.6:
            return [rng.choice(["&&", "||"]), self.strexpr(s, p), self.strexpr(s, p)]
        if r < 0.8:
            a = self.name("a")
            return ["lam", a, self.strexpr(dict(s, **{a: "s"}), p), self.strexpr(s, p)]
        if r < 0.9:
            return ["obj", rng.choice(["k", "if_", "$"]), self.strexpr(s, p)]
        xs = [self.strexpr(s, p) for _ in range(rng.randint(1, 3))]
        return ["idx", xs, rng.randrange(len(xs))]

    def outexpr(self, env):
        """An expression that is output as text (where literal() counts)."""
        e = self.strexpr(env)
        if self.on("forms") and self.rng.random() < 0.05:
            c = ["c", self.rng.choice(["none", "none", "-", "<", ""])]
            r = self.rng.random()
            if r < 0.7:
                e = ["ife", self.cond(env)] + ([c, e] if r < 0.5 else [e, c])
            else:   # (the output of a function that outputs nothing is true)
                e = self.strexpr({v: k for v, k in env.items() if k == "s"})
                e = self.rng.choice([["or", c, e], ["and", c, e], ["or", e, c]])
        if self.on("lit", False) and self.rng.random() < 0.12:
            e = ["lit", e]
        if self.on("gt", False) and self.rng.random() < 0.2:
            e = ["gt", self.rng.choice(["hello", "a b", "<x>&", "é", "it's"])]
        return e

    def cond(self, env, depth=0):
        bs = [v for v, k in env.items() if k == "b"]
        if self.rng.random() < 0.06:
            # what the compiler may decide
            e = ["c", self.rng.choice([True, False, False, 0, 1, "", "x", None] +
                                      ([0.0, -1, [], [0], {}] if self.on("forms") else [0.0, 0.5, -0.0, 0.0] if self.on("jsforms", False) else []))]
            return ["not", e] if self.rng.random() < 0.4 else e
        if depth < 2 and self.on("forms") and self.rng.random() < 0.1:
            # what the compiler might think it can decide
            a, b = self.cond(env, depth + 1), self.cond(env, depth + 1)
            e = [self.rng.choice(["and", "or"]), a, b]
            return ["not", e] if self.rng.random() < 0.2 else e
        if depth < 2 and (self.on("forms") or self.on("jsforms", False)) and self.rng.random() < 0.05:
            # true or not, but it has to be evaluated
            ss = {v: k for v, k in env.items() if k == "s"}
            e = ["L", [self.strexpr(ss, 0.6) for _ in range(self.rng.randint(1, 2))]]
            if self.on("forms") and self.on("gj") and self.rng.random() < 0.4:
                e = ["fs", ["x", e[1][0]]]
            return ["not", e] if self.rng.random() < 0.2 else e
        if bs and self.rng.random() < 0.8:
            e = ["v", self.rng.choice(bs)]
        else:
            e = ["c", self.rng.random() < 0.7]
            return self.probe(e, 1.0) if self.probes else e
        e = self.probe(e)
        if self.rng.random() < 0.25:
            e = ["not", e]
        return e

    def bound(self, prefix, env):
        """The variable of a generator: at times the name of a variable that is in use around it.
        (not of a list comprehension, which CPython 3.12 makes part of the function, and then confuses
        its variable with a variable of the same name that an inner function uses)"""
        names = sorted(v for v, k in env.items() if k == "s" and v.isidentifier())
        return self.rng.choice(names) if names and self.rng.random() < 0.35 else self.name(prefix)

    def listexpr(self, env, use=None):
        if self.on("forms") and self.rng.random() < 0.15:
            v = self.name("q")
            s = {k: w for k, w in env.items() if w == "s"}
            it = self.listexpr(env, use)
            return self.probe(["lc", self.strexpr(dict(s, **{v: "s"}), 0.4), v, it], 0.3)
        ls = [v for v, k in env.items() if k == "l"]
        if ls and self.rng.random() < 0.7:
            return self.probe(["v", self.rng.choice(ls)])
        return self.probe(["L", [self.strexpr({k: v for k, v in env.items() if v == "s"}, 0.4)
                                 for _ in range(self.rng.randint(0, 3))]])

    def attrs(self, env):
        out = []
        names = list(ATTRS) + (["placeholder", "value", "caption"] if self.on("te", False) else [])
        self.rng.shuffle(names)
        for _ in range(self.rng.choice([0, 0, 1, 1, 2, 3])):
            nm = names.pop()
            r = self.rng.random()
            if r < 0.3:
                out.append([nm, ["c", self.text(0, 5) if not self.on("te", False) else self.rng.choice(
                    ["", " ", "Tip", " a & \"b\" ", "é <x>", "\u00a0", "\u2003Tip\u00a0", self.text(0, 5)])]])
            elif r < 0.35 and not self.on("tal", False):
                out.append([nm, ["e"]])
            elif r < 0.7:
                bs = [v for v, k in env.items() if k == "b"]
                if bs and self.rng.random() < 0.35:
                    out.append([nm, ["x", self.probe(["v", self.rng.choice(bs)])]])
                else:
                    out.append([nm, ["x", self.strexpr(env)]])
            else:
                parts = [self.text(1, 3)]
                for _ in range(self.rng.randint(1, 2)):
                    parts.append(self.outexpr(env))
                    if self.rng.random() < 0.5:
                        parts.append(self.text(1, 3))
                out.append([nm, ["m", parts]])
        return out

    def kids(self, env, depth, lo=0, hi=4, top=False):
        env = dict(env)
        out = []
        if lo and self.rng.random() < 0.03:
            lo = hi = 0
        for _ in range(self.rng.randint(lo, hi)):
            out.extend(self.node(env, depth, top))
        return out

    def node(self, env, depth, top=False):
        """One or two nodes; may add local functions to ``env``."""
        rng = self.rng
        r = rng.random()
        if depth >= self.maxdepth or r < 0.18:
            if self.on("te", False) and rng.random() < 0.5:
                return [["TE", rng.choice(["", " ", "\n ", "\u00a0", " \u2003"]) + rng.choice(
                    ["Hello", "a\u00a0b", "a & b", "1 < 2 > 0", "\"q\" 's'", "x\n  y", "é☃ text", "cost: 5 $ a", "$x ${y}", "$$"])
                    + rng.choice(["", " ", "\n", "\u00a0", "\u3000 "])]]
            return [["T", self.text()]]
        if r < 0.46:
            svars = [v for v, k in env.items() if k == "s"]
            if svars and rng.random() < 0.2:
                return [["V", rng.choice(svars)], ["T", " "]]
            return [["E", self.outexpr(env)]]
        if r < 0.68:
            tag = rng.choice(TAGS)
            dirs = {}
            inner = dict(env)
            hide = top
            if rng.random() < 0.12:
                dirs["if"] = self.cond(env)
            if rng.random() < 0.12:
                v = self.name("i")
                dirs["for"] = [v, self.listexpr(env)]
                inner[v] = "s"
                hide = False
            if rng.random() < 0.1 and not self.on("tal", False):
                v = self.name("w")
                dirs["with"] = [[v, self.strexpr({k: w for k, w in inner.items() if w == "s"})]]
                inner[v] = "s"
                hide = False
            x = rng.random()
            if x < 0.1:
                dirs["content"] = self.strexpr(inner)
            elif x < 0.15:
                dirs["replace"] = self.strexpr(inner)
            if rng.random() < 0.08 and "replace" not in dirs:
                dirs["strip"] = rng.choice(["", self.cond(inner)])
            if rng.random() < 0.1 and "replace" not in dirs:
                # without probes: an element evaluates py:attrs last, after all other attributes
                e = ["dict", [[self.name("z"), self.strexpr(inner)] for _ in range(rng.randint(0, 2))]]
                if self.on("forms") and rng.random() < 0.35:
                    if self.on("dgen") and self.on("gj") and self.probes and rng.random() < 0.4:
                        v = self.name("y")
                        e = ["dgen", v, self.probe(["v", v], 1.0), e]
                    else:
                        e = ["dform", rng.randrange(len(DFORMS)), e]
                dirs["attrs"] = self.probe(e)
            attrs = [] if "replace" in dirs else self.attrs(inner)
            kids = [] if "content" in dirs or "replace" in dirs else self.kids(inner, depth + 1, top=hide)
            return [["el", tag, attrs, dirs, kids]]
        if r < 0.72:
            return [["el", rng.choice(VOID), self.attrs(env), {}, []]]
        if r < 0.92 and self.on("tal", False):
            # there are no control elements
            d = {"if": self.cond(env)} if r < 0.79 else {}
            inner = dict(env)
            if r > 0.77:
                v = self.name("i")
                d["for"] = [v, self.listexpr(env)]
                inner[v] = "s"
            return [["el", rng.choice(TAGS), [], d, self.kids(
                inner, depth + 1, 1, top=top and "for" not in d and ("if" not in d or decided(d["if"]))) + (
                [["T", "."]] if rng.random() < 0.8 else [])]]
        if r < 0.79:
            c = self.cond(env)
            # a test the compiler decides leaves its content where it is
            return [["if", c, self.kids(env, depth + 1, 1, top=top and decided(c))]]
        if r < 0.87:
            v = self.name("i")
            inner = dict(env)
            inner[v] = "s"
            return [["for", v, self.listexpr(env), self.kids(inner, depth + 1, 1)]]
        if r < 0.92:
            inner = dict(env)
            vs = []
            for _ in range(rng.randint(1, 2)):
                v = self.name("w")
                vs.append([v, self.strexpr({k: w for k, w in inner.items() if w == "s"})])
                inner[v] = "s"
            return [["with", vs, self.kids(inner, depth + 1, 1)]]
        if r < 0.95 and not top and self.on("localdef"):
            f = self.name("lf")
            na = rng.randint(0, 2)
            args = [self.name("a") for _ in range(na)]
            inner = dict(env)
            for a in args:
                inner[a] = "s"
            d = ["def", f, args, self.kids(inner, depth + 1, 1, 3)]
            if na and self.on("forms") and rng.random() < 0.3:
                s = {k: v for k, v in env.items() if v == "s"}
                d.append({a: self.strexpr(s) for a in args[rng.randint(0, na - 1):]})
                env[f] = ("f", na, args, list(d[4]))
            elif self.on("forms") and rng.random() < 0.25:
                # recursive, on the one line or several
                a = self.name("n")
                inner = dict(env)
                inner[a] = "n"
                d = ["def", f, [a], self.kids(inner, depth + 1, 0, 2)]
                e = self.probe(["ife", ["v", a], ["call", f, [["dec", a]]], self.strexpr(inner)], 0.3)
                d[3].insert(rng.randint(0, len(d[3])), ["E", e])
                if rng.random() < 0.3:
                    d[3].append(["el", "b", [["class", ["x", self.strexpr(inner)]]], {}, [["T", "."]]])
                env[f] = ("r",)
                return [d, ["E", self.probe(["call", f, [["c", rng.randint(0, 4) if rng.random() < 0.95 else 30]]], 0.3)]]
            else:
                env[f] = ("f", na)
            s = {k: v for k, v in env.items() if v == "s"}
            between = lambda: [["E", self.outexpr(s)] for _ in range(rng.choice([0, 0, 1, 2]))]
            return between() + [d] + between() + [["E", self.probe(
                ["call", f, [self.strexpr(s) for _ in range(na)]], 0.3)]]
        if r < 0.965:
            return [["cm", self.text(1, 5).replace("-", "_")]]
        if r < 0.98 and not top and self.on("pycode"):
            v = self.name("y")
            n = ["py", v, self.strexpr({k: w for k, w in env.items() if w == "s"})]
            env[v] = "s"
            return [n]
        if r < 0.99 and self.on("raw"):
            kids = []
            for _ in range(rng.randint(1, 4)):
                x = rng.random()
                svars = [v for v, k in env.items() if k == "s"]
                if x < 0.5:
                    kids.append(["T", rng.choice(["a < b && c;", "x > 'y' \"", " ", "/* <p> */", "é"])])
                elif x < 0.8 or not svars:
                    kids.append(["E", self.outexpr(env)])
                else:
                    kids.append(["V", rng.choice(svars)])
                    kids.append(["T", ";"])
            return [["raw", rng.choice(["script", "style"]), kids]]
        return [["T", "\n"]]

    def top_def(self, env):
        f = self.public("f")
        na = self.rng.randint(0, 2)
        args = [self.name("a") for _ in range(na)]
        if na and self.on("forms") and self.rng.random() < 0.3:
            na = Arity(na)
            na.args, na.defaults = args, args[self.rng.randint(0, na - 1):]
        return self.def_of(f, na, args, env, 4), f, na

    def def_of(self, f, na, args, env, size):
        inner = dict(env)
        for a in args:
            inner[a] = "s"
        d = ["def", f, args, self.kids(inner, 2, 1, size)]
        if isinstance(na, Arity):
            # (evaluated when the template is bound)
            s = {k: v for k, v in self.context.items() if v == "s"}
            d.append({a: self.strexpr(s) for a in na.defaults})
        return d

    @staticmethod
    def fenv(f, na):
        """What ``env`` has of a function."""
        return ("f", na, na.args, na.defaults) if isinstance(na, Arity) else ("f", na)

    def context_vars(self):
        rng = self.rng
        env = {}
        for i in range(rng.randint(2, 5)):
            env["s%d" % i] = "s"
        for i in range(rng.randint(1, 2)):
            env["b%d" % i] = "b"
        for i in range(rng.randint(1, 2)):
            env["l%d" % i] = "l"
        if rng.random() < 0.6:
            env["n0"] = "n"
        self.context = dict(env)
        return env

    def file(self, env, mods=None, ndefs=None, nblocks=0, size=(2, 6), blocknames=None):
        """A standalone file.  mods: {alias: (href, [(fn, nargs)...])}"""
        env = dict(env)
        imports = []
        for alias, (href, fns) in (mods or {}).items():
            imports.append([href, alias])
            env[alias] = ("m", fns)
        defs = []
        sig = []
        for _ in range(self.rng.randint(0, 2) if ndefs is None else ndefs):
            d, f, na = self.top_def(env)
            defs.append(d)
            sig.append((f, na))
            env[f] = self.fenv(f, na)
        body = self.kids(env, 1, size[0], size[1], top=True)
        large = self.rng.random()
        if large < self.feat.get("large", 0.008):
            kind = self.rng.random()
            if kind < 0.3 and not self.on("tal", False):
                v = self.name("i")
                inner = {k: w for k, w in env.items() if w == "s"}
                items = [self.strexpr(inner, 0.1) for _ in range(self.rng.choice([40, 150]))]
                body.append(["for", v, self.probe(["L", items]), [["E", self.strexpr(dict(inner, **{v: "s"}))],
                                                                  ["V", v], ["T", "; "]]])
            elif kind < 0.65:
                for _ in range(self.rng.choice([10, 30, 90])):
                    body.extend(self.kids(env, 2, 2, 6, top=True))
            else:
                for _ in range(self.rng.choice([25, 60])):
                    body = [["el", self.rng.choice(TAGS), self.attrs(env) if self.rng.random() < 0.1 else [], {}, body]]
        blocks = []
        for i in range(nblocks):
            b = (blocknames or [])[i] if blocknames else self.public("blk")
            benv = {k: v for k, v in env.items()}
            node = ["block", b, self.kids(benv, 2, 1, 3, top=False)]
            blocks.append(b)
            body.insert(self.rng.randint(0, len(body)), node)
        return {"ext": None, "imports": imports, "defs": defs, "body": body}, sig, blocks

    def child(self, env, parent, blocks, sig, mods=None):
        env = dict(env)
        imports = []
        for alias, (href, fns) in (mods or {}).items():
            imports.append([href, alias])
            env[alias] = ("m", fns)
        body = []
        benv = dict(env)
        if self.rng.random() < 0.6:
            # (not in functions, which could call each other forever)
            benv.update((f, self.fenv(f, na)) for f, na in sig)
        for b in blocks:
            if self.rng.random() < 0.7:
                body.append(["block", b, self.kids(benv, 2, 1, 4)])
        defs = []
        for f, na in sig:
            if self.rng.random() < 0.3:
                args = na.args if isinstance(na, Arity) else [self.name("a") for _ in range(na)]
                defs.append(self.def_of(f, na, args, env, 3))
        return {"ext": parent, "imports": imports, "defs": defs, "body": body}

    def fileset(self, env, nfiles=None):
        """A lib to import, a base with blocks, children, standalone pages."""
        rng = self.rng
        files = {}
        if self.on("tal", False):
            for i in range(rng.randint(1, 4)):
                f, _, _ = self.file(env, ndefs=0)
                files["page%d.pt" % i] = dict(f, tal=True)
            return files
        kind = rng.random()
        lib_sig = None
        mods = {}
        if kind < 0.6:
            lib, lib_sig, _ = self.file(env, ndefs=rng.randint(1, 2), size=(0, 2))
            files["lib.tk"] = lib
            mods = {"lib": ("lib.tk", lib_sig)}
        base, sig, blocks = self.file(env, mods=mods if rng.random() < 0.5 else {},
                                      nblocks=rng.randint(1, 3))
        files["base.tk"] = base
        for i in range(rng.randint(1, 2)):
            files["child%d.tk" % i] = self.child(env, "base.tk", blocks, sig,
                                                 mods if rng.random() < 0.5 else {})
        if rng.random() < 0.35:
            files["grand.tk"] = self.child(env, "child0.tk", blocks, sig,
                                           mods if rng.random() < 0.3 else {})
        for i in range(rng.randint(1, 2)):
            f, _, _ = self.file(env, mods=mods if rng.random() < 0.6 else {})
            files["page%d.tk" % i] = f
        if rng.random() < 0.2:
            add_twin(rng, files)
        add_case(rng, files)
        return files


def add_case(rng, files):
    """HTML does not know upper case from lower case."""
    for name in sorted(files):
        if rng.random() < 0.08:
            f = files[name]
            f["style"] = dict(f.get("style") or {}, case=rng.choice([1, 2, 3]))


def add_twin(rng, files):
    """A copy of a file, exact or with another text somewhere."""
    name = rng.choice(sorted(files))
    f = copy.deepcopy(files[name])
    texts = []

    def look(x):
        if isinstance(x, dict):
            for y in x.values():
                look(y)
        elif isinstance(x, list):
            if len(x) == 2 and x[0] == "T" and isinstance(x[1], str) and x[1].strip():
                texts.append(x)
            for y in x:
                look(y)

    look(f.get("defs"))
    look(f["body"])
    if texts and rng.random() < 0.5:
        rng.choice(texts)[1] += "!"
    files["twin" + os.path.splitext(name)[1]] = f


SPECIAL = ["constructor", "__proto__", "toString", "hasOwnProperty", "length", "null", "undefined", "None", "0", "false",
           "%s", "%(x)s", "{}", "{0}", "\\n", "${s0}", "$s0", "$$", "]]>", "-->", "&amp;", "\u2028", "\r\n", "\t "]


def draw_context(rng, env, tag, objs=0.0):
    """Plain-data context for one render; every text carries ``tag``."""
    out = {}
    size = rng.random()
    for v, k in env.items():
        if k == "s" and size > 0.995 and not objs:
            # larger than any buffer
            out[v] = [rng.choice("sm"), ("%sab" % tag) * rng.choice([3000, 20000])]
        elif k == "s":
            r = rng.random()
            if rng.random() < 0.03:
                out[v] = [rng.choice("sssm"), rng.choice(SPECIAL)]
            elif objs and rng.random() < objs:
                out[v] = ["o", rng.choice(["str", "html"]), "%s%s" % (tag, rng.choice(["<", "&'", "", '"'])), v]
            elif r < 0.72:
                out[v] = ["s", "%s%s%s" % (tag, rng.choice(["", "<", "&", '"', "'", ">", "<b>&amp;", "é☃"]),
                                           rng.choice("xyz"))]
            elif r < 0.87:
                out[v] = ["m", "<i>%s&amp;</i>" % tag]
            else:
                out[v] = ["s", tag]
        elif k == "l":
            out[v] = ["l", [["s", "%s%d%s" % (tag, i, rng.choice(["", "<", "&"]))]
                            for i in range(rng.randint(0, 3) if size > 0.02 else rng.choice([5, 7]))]]
        elif k == "b":
            out[v] = ["b", rng.choice([True, False, None, True])]
        elif k == "n":
            out[v] = ["i", rng.choice([0, 1, 7, -3, 2.5])]
    return out


def real_value(v, obj=None):
    from markupsafe import Markup

    k = v[0]
    if k == "m":
        return Markup(v[1])
    if k == "l":
        return [real_value(x, obj) for x in v[1]]
    if k == "o":
        return obj(v)
    return v[1]


def model_value(v, obj=None):
    k = v[0]
    if k == "m":
        return Raw(v[1])
    if k == "l":
        return [model_value(x, obj) for x in v[1]]
    if k == "o":
        return obj(v)
    return v[1]
