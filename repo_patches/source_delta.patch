From 002b7c0edc3e365a7c242e7d1105fb20b7b0a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 01/44] fix: recognize markup in <title>, <textarea> and others
 with newer HTMLParsers

Recent versions of html.parser treat the contents of <title> and <textarea>
as text only, and those of <iframe> and others as raw text, so that blocks,
expressions and control elements within them were no longer recognized and
the inheritance example in README did not work.
---
 tonnikala/syntaxes/docparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index acbec61..b9b4fbe 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -158,6 +158,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         "wbr",
     }
 
+    # Markup and character references are recognized within all elements other
+    # than these two: newer HTMLParsers do not do that by default for <title>,
+    # <textarea>, <iframe> and others.
+    CDATA_CONTENT_ELEMENTS = ("script", "style")
+    RCDATA_CONTENT_ELEMENTS = ()
+
     def __init__(self, filename, source):
         super(TonnikalaHTMLParser, self).__init__(**html_parser_extra_kw)
         self.filename = filename
-- 
2.43.0


From 25132b91321ecd380d824d9b48a788ca00ea4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 02/44] fix: survive deleted and restored template files when
 reloading

os.stat raises when the file is gone, so that one deleted or unreadable
template file made every load of any template fail from then on. Treat it as
a change. A file replaced by one with an older modification time is changed,
too.
---
 tonnikala/loader.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 825ad9f..5383e07 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -241,19 +241,20 @@ class FileLoader(Loader):
         """
         If enough time since last check has elapsed, check if any
         of the cached templates has changed. If any of the template
-        files were deleted, remove that file only. If any were
-        changed, then purge the entire cache.
+        files were changed or deleted, then purge the entire cache,
+        because other templates can refer to the changed ones.
         """
 
         if self._last_reload_check + MIN_CHECK_INTERVAL > time.time():
             return
 
-        for name, tmpl in list(self.cache.items()):
-            if not os.stat(tmpl.path):
-                self.cache.pop(name)
-                continue
+        for tmpl in list(self.cache.values()):
+            try:
+                mtime = os.stat(tmpl.path).st_mtime
+            except OSError:
+                mtime = None
 
-            if os.stat(tmpl.path).st_mtime > tmpl.mtime:
+            if mtime != tmpl.mtime:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From 22551d8485ffc528ccf7816e50cb99d7c2a7352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 03/44] fix: do not stop reloading when the wall clock is set
 back

Measure the check interval on the monotonic clock, from the start of the
check on.
---
 tonnikala/loader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 5383e07..d3b2f03 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -217,7 +217,7 @@ class FileLoader(Loader):
         self.cache = {}
         self.paths = list(paths)
         self.reload = False
-        self._last_reload_check = time.time()
+        self._last_reload_check = time.monotonic()
 
     def add_path(self, *a: str) -> None:
         self.paths.extend(a)
@@ -245,7 +245,8 @@ class FileLoader(Loader):
         because other templates can refer to the changed ones.
         """
 
-        if self._last_reload_check + MIN_CHECK_INTERVAL > time.time():
+        now = time.monotonic()
+        if self._last_reload_check + MIN_CHECK_INTERVAL > now:
             return
 
         for tmpl in list(self.cache.values()):
@@ -258,7 +259,7 @@ class FileLoader(Loader):
                 self.cache.clear()
                 break
 
-        self._last_reload_check = time.time()
+        self._last_reload_check = now
 
     def load(self, name):
         """
-- 
2.43.0


From 3fffcd38bd3d54e2b957d0b164445ada9a8fe705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 04/44] fix: notice a template changed while it is being loaded

The modification time was taken after the contents had been read; an edit
between the two stayed unnoticed until the next edit.
---
 tonnikala/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index d3b2f03..0c552eb 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -281,8 +281,10 @@ class FileLoader(Loader):
             raise OSError(errno.ENOENT, "File not found: %s" % name)
 
         with codecs.open(path, "r", encoding="UTF-8") as f:
-            contents = f.read()
+            # before reading: should the file change meanwhile, the
+            # next check notices it
             mtime = os.fstat(f.fileno()).st_mtime
+            contents = f.read()
 
         template = self.load_string(contents, filename=path)
         template.mtime = mtime
-- 
2.43.0


From a5ba5feb373e33b1872a62fdaf63b45cb20ec48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 05/44] fix: serialize concurrent loads in FileLoader

A thread that was loading a child template while another one purged the
cache could store the child, bound to the outdated version of its base
template, in the cache afterwards; as the child itself had not changed it
was never reloaded.
---
 tonnikala/loader.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 0c552eb..68743b8 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -2,6 +2,7 @@ import codecs
 import errno
 import os
 import sys
+import threading
 import time
 from typing import Iterable, Optional
 
@@ -219,6 +220,10 @@ class FileLoader(Loader):
         self.reload = False
         self._last_reload_check = time.monotonic()
 
+        # serializes changes to the cache. It is reentrant, because loading a
+        # template can load the templates that it extends.
+        self._lock = threading.RLock()
+
     def add_path(self, *a: str) -> None:
         self.paths.extend(a)
 
@@ -269,13 +274,22 @@ class FileLoader(Loader):
         If in cache, return the cached template.
         """
 
-        if self.reload:
-            self._maybe_purge_cache()
+        if not self.reload:
+            template = self.cache.get(name)
+            if template:
+                return template
+
+        with self._lock:
+            if self.reload:
+                self._maybe_purge_cache()
+
+            template = self.cache.get(name)
+            if template:
+                return template
 
-        template = self.cache.get(name)
-        if template:
-            return template
+            return self._load_uncached(name)
 
+    def _load_uncached(self, name):
         path = self.resolve(name)
         if not path:
             raise OSError(errno.ENOENT, "File not found: %s" % name)
-- 
2.43.0


From 78de8779a6925273cbcf28cc908ffd8e8a4eef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 06/44] fix: handle allocation failures and leaks in the C
 buffer

Check the result of every allocation, and release the objects that were
leaked on error paths and when a buffer is deallocated.
---
 tonnikala/runtime/_buffer.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index f2e4627..0fc5b13 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -26,6 +26,10 @@ static void
 Buffer_dealloc(Buffer* self)
 {
     Py_XDECREF(self->buffer_list);
+    Py_XDECREF(self->escape_func);
+    Py_XDECREF(self->equals_quot);
+    Py_XDECREF(self->quot);
+    Py_XDECREF(self->space);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -87,6 +91,7 @@ _do_append(Buffer *self, PyObject *args) {
                     return NULL;
                 }
                 if (PyList_Append(self->buffer_list, obj) != 0) {
+                    Py_DECREF(obj);
                     return NULL;
                 }
                 // it is a new reference
@@ -150,19 +155,22 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         if (call == NULL) {
             PyErr_SetString(PyExc_TypeError,
                 "escape function is not callable");
-            return NULL;
+            goto error;
         }
 
         PyObject *escape_args = PyTuple_New(1);
+        if (! escape_args) {
+            goto error;
+        }
         Py_INCREF(value);
         PyTuple_SET_ITEM(escape_args, 0, value);
 
         PyObject *result = (*call)(self->escape_func, escape_args, NULL);
+        Py_DECREF(escape_args);
         if (result == NULL) {
             goto error;
         }
 
-        Py_DECREF(escape_args);
         value = result;
     }
 
@@ -185,6 +193,7 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
 
     return rv;
 error:
+    Py_XDECREF(tmp);
     return NULL;
 }
 
@@ -193,6 +202,9 @@ static PyObject *
 Buffer_join(PyObject *self, PyObject *args) {
     PyObject *sep, *rv;
     sep = PyUnicode_InternFromString("");
+    if (! sep) {
+        return NULL;
+    }
     rv = PyUnicode_Join(sep, ((Buffer*)self)->buffer_list);
     Py_DECREF(sep);
     return rv;
-- 
2.43.0


From cd56d2ce889d542e66f5daf1ea29929e12c8f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 07/44] fix: make the Python buffer output attributes like the
 C buffer

An attribute name that was an instance of Markup made the quotes around the
value be escaped, and a value whose conversion failed left the beginning of
the attribute in the buffer.
---
 tonnikala/runtime/python.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 9716492..20a7e07 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -22,14 +22,15 @@ class _TKPythonBufferImpl(object):
         def output_boolean_attr(name, value):
             t = type(value)
             if t in (bool, NoneType):
-                value and do_output(" " + name + '="' + name + '"')
+                value and do_output(" ", name, '="', name, '"')
 
                 # skip on false, None
                 return
 
-            do_output(" " + name + '="')
-            do_output(escape(value))
-            do_output('"')
+            # nothing is output if escaping fails, and the name is not
+            # concatenated, as it could be an instance of Markup
+            value = escape(value)
+            do_output(" ", name, '="', value, '"')
 
         self.output_boolean_attr = output_boolean_attr
 
-- 
2.43.0


From 0a0054f5e1b63660419a3bb38d67224a2028130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 08/44] fix: report write errors in
 tonnikala-compile-jstemplate

Errors on closing the target at exit were ignored, so that the command
succeeded without having written its output, for example to a full disk. The
target was also truncated when the compilation failed.
---
 bin/tonnikala-compile-jstemplate | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bin/tonnikala-compile-jstemplate b/bin/tonnikala-compile-jstemplate
index 5a7f7de..ca2e7db 100755
--- a/bin/tonnikala-compile-jstemplate
+++ b/bin/tonnikala-compile-jstemplate
@@ -2,13 +2,22 @@
 
 from tonnikala.loader import JSLoader
 import argparse
+import sys
 
 parser = argparse.ArgumentParser(description='Compile a Tonnikala Javascript template into JavaScript')
 parser.add_argument('source', help='Source file', type=argparse.FileType('r'))
-parser.add_argument('target', help='Target file', type=argparse.FileType('w'))
+parser.add_argument('target', help='Target file')
 
 args = parser.parse_args()
 
 compiled = JSLoader().load_string(args.source.read())
-args.target.write(compiled)
+
+# the target is opened only now so that a failed compilation does not truncate
+# it, and closed explicitly, as errors are ignored when it is closed at exit
+if args.target == '-':
+    sys.stdout.write(compiled)
+    sys.stdout.flush()
+else:
+    with open(args.target, 'w') as target:
+        target.write(compiled)
 
-- 
2.43.0


From 9dd6a8e854f2ce415947aada2ad9b0b7ea4868c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 09/44] fix: make the output of the JavaScript compiler
 reproducible

The order of the variables depended on the hash randomization of the process.
---
 tonnikala/languages/javascript/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 51cf064..bfd68a6 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -693,6 +693,9 @@ class JsRootNode(JsComplexNode):
         # discard the names of toplevel funcs from free variables
         # free_variables.difference_update(generator.top_level_names)
 
+        # the output must not depend on the iteration order of a set
+        free_variables = sorted(free_variables)
+
         modules = ["tonnikala/runtime"] + list(generator.import_sources)
 
         if extended:
-- 
2.43.0


From 718bf42daa6296d6b1d8e09212e77d208496abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 10/44] fix: report errors in the conversion of a value on the
 line of its expression

The generated calls that escape and output a value had no location of their
own, so that an error raised by them was reported on the first line of the
enclosing function or, as the ends of the removed locations were not removed,
on a line past the end of the template.
---
 tonnikala/languages/python/generator.py | 57 +++++++++++++++----------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 90a65a4..5d7ebe7 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -36,6 +36,18 @@ def create_argument_list(arguments):
     return [arg(arg=id, annotation=None) for id in arguments]
 
 
+def located_like(located, node):
+    """
+    Set the location of a generated node to that of the expression that it
+    was generated for, so that errors within are reported on the right line
+    """
+
+    if hasattr(located, "lineno"):
+        ast.copy_location(node, located)
+
+    return node
+
+
 def simple_function_def(name, arguments=()):
     arguments = create_argument_list(arguments)
     if sys.version_info >= (3, 8):
@@ -161,10 +173,11 @@ class PythonNode(LanguageNode):
         for i in code:
             if position is not None:
                 i.lineno, i.col_offset = position
+                i.end_lineno, i.end_col_offset = position
 
-            e = Expr(simple_call(func, [i]))
+            e = Expr(located_like(i, simple_call(func, [i])))
             e.output_args = [i]
-            rv.append(e)
+            rv.append(located_like(i, e))
 
         return rv
 
@@ -254,7 +267,8 @@ class PyExpressionNode(PythonNode):
         return [self.get_expression()]
 
     def get_expression(self):
-        return simple_call(NameX("__TK__escape"), [self.get_unescaped_expression()])
+        expr = self.get_unescaped_expression()
+        return located_like(expr, simple_call(NameX("__TK__escape"), [expr]))
 
     def get_unescaped_expression(self):
         return get_fragment_ast(self.expr)
@@ -370,21 +384,19 @@ class PyAttributeNode(PyComplexNode):
             # expression, these are handled by
             # __TK__output.output_boolean_attr,
             # given the name, and unescaped expression!
-            return [
-                Expr(
-                    simple_call(
-                        func=Attribute(
-                            value=NameX("__TK__output"),
-                            attr="output_boolean_attr",
-                            ctx=Load(),
-                        ),
-                        args=[
-                            Str(s=self.name),
-                            self.children[0].get_unescaped_expression(),
-                        ],
-                    )
-                )
-            ]
+            expr = self.children[0].get_unescaped_expression()
+            call = simple_call(
+                func=Attribute(
+                    value=NameX("__TK__output"),
+                    attr="output_boolean_attr",
+                    ctx=Load(),
+                ),
+                args=[
+                    Str(s=self.name),
+                    expr,
+                ],
+            )
+            return [located_like(expr, Expr(located_like(expr, call)))]
 
         # otherwise just return the output for the attribute code
         # like before
@@ -404,6 +416,7 @@ class PyAttrsNode(PythonNode):
         expression = get_fragment_ast(self.expression)
 
         output = simple_call(NameX("__TK__output_attrs"), args=[expression])
+        output = located_like(expression, output)
         return self.generate_output_ast([output], generator, parent)
 
 
@@ -644,11 +657,9 @@ def remove_locations(node):
     """
 
     def fix(node):
-        if "lineno" in node._attributes and hasattr(node, "lineno"):
-            del node.lineno
-
-        if "col_offset" in node._attributes and hasattr(node, "col_offset"):
-            del node.col_offset
+        for attr in ["lineno", "col_offset", "end_lineno", "end_col_offset"]:
+            if attr in node._attributes and hasattr(node, attr):
+                delattr(node, attr)
 
         for child in iter_child_nodes(node):
             fix(child)
-- 
2.43.0


From 5f411777f219ca79b3f3b10a859a468a48740935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 11/44] fix: convert literal() values in order and on their own
 line

The literal() of an output is left out and its argument converted to a string
by the output call. Merged with neighbouring outputs, it was converted only
after the expressions following it had been evaluated, and errors were
reported on the line of the first of the merged outputs.
---
 tonnikala/languages/python/generator.py | 55 ++++++++++++-------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 5d7ebe7..968fa9d 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -568,13 +568,28 @@ def coalesce_outputs(tree):
         __output__('foobar', baz, 'xyzzy')
     """
 
-    coalesce_all_outputs = True
-    if coalesce_all_outputs:
-        def should_coalesce(node):
-            return True
-    else:
-        def should_coalesce(node):
-            return node.output_args[0].__class__ is Str
+    def get_literal(arg):
+        """
+        Return x if the argument is __TK__escape(literal(x)), otherwise None
+        """
+        for name in ["__TK__escape", "literal"]:
+            if not arg.__class__.__name__ == "Call":
+                return None
+
+            if not ast_equals(arg.func, NameX(name)):
+                return None
+
+            if len(arg.args) != 1:
+                return None
+
+            arg = arg.args[0]
+
+        return arg
+
+    def should_coalesce(node):
+        # a literal is converted to a string by the output itself, hence it
+        # must be output on its own line, before anything else is evaluated
+        return not any(get_literal(i) for i in node.output_args)
 
     class OutputCoalescer(NodeVisitor):
         def visit(self, node):
@@ -621,28 +636,10 @@ def coalesce_outputs(tree):
             if not ast_equals(node.func, NameX("__TK__output")):
                 return
 
-            for i in range(len(node.args)):
-                arg1 = node.args[i]
-                if not arg1.__class__.__name__ == "Call":
-                    continue
-
-                if not ast_equals(arg1.func, NameX("__TK__escape")):
-                    continue
-
-                if len(arg1.args) != 1:
-                    continue
-
-                arg2 = arg1.args[0]
-                if not arg2.__class__.__name__ == "Call":
-                    continue
-
-                if not ast_equals(arg2.func, NameX("literal")):
-                    continue
-
-                if len(arg2.args) != 1:
-                    continue
-
-                node.args[i] = arg2.args[0]
+            for i, arg in enumerate(node.args):
+                literal = get_literal(arg)
+                if literal is not None:
+                    node.args[i] = literal
 
         def visit_Call(self, node):
             self.check(node)
-- 
2.43.0


From 4c8dbd19368dc561ff24a4a7fe8f42a1cb91c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 12/44] fix: do not miss a change of a template that takes long
 to load

---
 tonnikala/loader.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 68743b8..5cfaec9 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -223,6 +223,7 @@ class FileLoader(Loader):
         # serializes changes to the cache. It is reentrant, because loading a
         # template can load the templates that it extends.
         self._lock = threading.RLock()
+        self._loading = 0
 
     def add_path(self, *a: str) -> None:
         self.paths.extend(a)
@@ -280,14 +281,20 @@ class FileLoader(Loader):
                 return template
 
         with self._lock:
-            if self.reload:
+            # not for the templates that a template being loaded extends: that
+            # one is not in the cache yet, and would escape the check
+            if self.reload and not self._loading:
                 self._maybe_purge_cache()
 
             template = self.cache.get(name)
             if template:
                 return template
 
-            return self._load_uncached(name)
+            self._loading += 1
+            try:
+                return self._load_uncached(name)
+            finally:
+                self._loading -= 1
 
     def _load_uncached(self, name):
         path = self.resolve(name)
-- 
2.43.0


From c822ffbbe2f995ea80a993154458f0de92f473a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 13/44] fix: report errors in <?python ?> code on the line of
 the code

---
 tonnikala/syntaxes/docparser.py | 7 ++++++-
 tonnikala/syntaxes/tonnikala.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index b9b4fbe..fe98536 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -7,7 +7,7 @@ from io import StringIO, BytesIO
 from xml import sax
 from xml.dom import minidom as dom
 
-from ..helpers import StringWithLocation
+from ..helpers import StringWithLocation, calculate_position
 from ..runtime.exceptions import TemplateSyntaxError
 
 impl = dom.getDOMImplementation(" ")
@@ -300,7 +300,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
+        source = "<?" + data
         type_, data = data.split(None, 1)
+        line, offset = calculate_position(
+            source, len(source) - len(data), self.getpos()
+        )
+        data = StringWithLocation(data, line, offset)
 
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 102a7f6..3343c1f 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -244,7 +244,10 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-            ir_node = Code(dom_node.nodeValue.strip())
+            # unlike stripping, slicing keeps the location; there is no
+            # leading white space
+            source = dom_node.nodeValue
+            ir_node = Code(source[: len(source.rstrip())])
             return ir_node
 
         if node_t == Node.DOCUMENT_TYPE_NODE:
-- 
2.43.0


From 0a8fd76a8e73e146a1315908ed1df8502f09127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 14/44] fix: do not ignore functions and blocks named like
 Python builtins

---
 tonnikala/runtime/python.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 20a7e07..efd0834 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -1,3 +1,4 @@
+import builtins
 from collections.abc import Mapping
 from markupsafe import escape
 
@@ -73,6 +74,17 @@ def output_attrs(values):
     return rv
 
 
+def is_defined(context, name):
+    """
+    True if the name has been defined in the context; the builtins that
+    every context has do not count.
+    """
+
+    return name in context and context[name] is not vars(builtins).get(
+        name, context
+    )
+
+
 def bind(context, block=False):
     """
     Given the context, returns a decorator wrapper;
@@ -85,7 +97,7 @@ def bind(context, block=False):
 
         def decorate(func):
             name = func.__name__.replace("__TK__block__", "")
-            if name not in context:
+            if not is_defined(context, name):
                 context[name] = func
             return context[name]
 
@@ -93,7 +105,7 @@ def bind(context, block=False):
 
     def decorate(func):
         name = func.__name__
-        if name not in context:
+        if not is_defined(context, name):
             context[name] = func
         return context[name]
 
-- 
2.43.0


From 7cbc775e3e8776294e531b751b5661802639f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 15/44] fix: do not show the functions of a template to the
 imports of its base

---
 tonnikala/languages/python/generator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 968fa9d..d6dab84 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -705,8 +705,11 @@ class PyRootNode(PyComplexNode):
         if extended:
             code += "__TK__parent_template = __TK__runtime.load(%r)\n" % extended
 
-        code += "def __TK__binder(__TK__context):\n"
-        code += "    __TK__original_context = __TK__context.copy()\n"
+        # a template that extends this one has added its functions and blocks
+        # to the context; the imported templates must not see them
+        code += "def __TK__binder(__TK__context, __TK__original_context=None):\n"
+        code += "    if __TK__original_context is None:\n"
+        code += "        __TK__original_context = __TK__context.copy()\n"
         code += "    __TK__bind = __TK__runtime.bind(__TK__context)\n"
         code += (
             "    __TK__bindblock = __TK__runtime.bind(__TK__context, " "block=True)\n"
@@ -728,7 +731,8 @@ class PyRootNode(PyComplexNode):
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
-            code += "    __TK__parent_template.binder_func(__TK__context)\n"
+            code += "    __TK__parent_template.binder_func(\n"
+            code += "        __TK__context, __TK__original_context)\n"
 
         for i in free_variables:
             code += '    if "%s" in __TK__context:\n' % i
-- 
2.43.0


From 467b2ad0cf7782e91d0cf838d8b7a15e1c068d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 16/44] fix: keep the values of a fragment out of the page
 around it

---
 tonnikala/pyramid/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/pyramid/__init__.py b/tonnikala/pyramid/__init__.py
index 7d81b72..95fc61a 100644
--- a/tonnikala/pyramid/__init__.py
+++ b/tonnikala/pyramid/__init__.py
@@ -92,7 +92,8 @@ class TonnikalaTemplateRenderer(object):
         return rendered
 
     def fragment(self, tmpl, value, system):
-        system["renderer_name"] = tmpl
+        # a copy, because the caller can use the values again
+        system = dict(system, renderer_name=tmpl)
         return self(value, system, fragment=True)
 
 
-- 
2.43.0


From 8e59a6af935fa3793e73a36affb5595ee17d4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 17/44] fix: keep the variables of js:with to its contents

They were assigned to variables of the whole template, and so were
seen after the js:with, and in every later rendering.
---
 tonnikala/languages/javascript/generator.py | 25 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index bfd68a6..a646802 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -230,10 +230,12 @@ class JavascriptNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
+    def generate_varscope(self, body, arguments=(), values=()):
         name = gen_name()
-        rv = [self.make_function(name, body), Expr(SimpleCall(NameX(name), []))]
-        return rv
+        return [
+            self.make_function(name, body, arguments=arguments),
+            Expr(SimpleCall(NameX(name), list(values))),
+        ]
 
 
 class JsOutputNode(JavascriptNode):
@@ -498,8 +500,21 @@ class JsWithNode(JsComplexNode):
                     "Only assignment statements allowed in With; not %s" % self.vars
                 )
 
-        body = var_defs + self.generate_child_ast(generator, self)
-        return self.generate_varscope(body)
+        body = self.generate_child_ast(generator, self)
+
+        # a variable is visible to those after it, and to the contents only
+        for i in reversed(var_defs):
+            assign = i.expr
+            if (
+                isinstance(assign, JSAssign)
+                and assign.op == "="
+                and isinstance(assign.left, Identifier)
+            ):
+                body = self.generate_varscope(body, [assign.left], [assign.right])
+            else:
+                body = [i] + body
+
+        return body
 
 
 class JsComplexExprNode(JsComplexNode):
-- 
2.43.0


From 4bd7796556144dad5ed90164217e56ae7cfde84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 18/44] fix: compile JavaScript templates that extend another
 and add nothing

---
 tonnikala/languages/javascript/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index a646802..0aed548 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -734,7 +734,9 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
-        code += "        var %s;\n" % ",\n            ".join(free_variables)
+        # an extended template can be empty
+        if free_variables:
+            code += "        var %s;\n" % ",\n            ".join(free_variables)
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
-- 
2.43.0


From d2d85e0ae7030b1d448b02b7da7a909475b28e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 19/44] fix: do not change the context given to a JavaScript
 template

The blocks and functions of the template were added to it, so that
another template, or the same with changed values, that was rendered
with the same object gave the output of the first.
---
 tonnikala/languages/javascript/generator.py |  2 ++
 tonnikala/runtime/javascript.js             | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 0aed548..f36c161 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -734,6 +734,8 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
+        code += "        __TK__context = __TK__.makeContext(__TK__context);\n"
+
         # an extended template can be empty
         if free_variables:
             code += "        var %s;\n" % ",\n            ".join(free_variables)
diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index c3b6026..8f755dd 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -153,6 +153,22 @@ define([], function () {
         list.forEach(fn);
     }
 
+    // the context of one bound template: the values given to it, and the
+    // blocks and functions of the template and those that it extends
+    function TemplateContext(values) {
+        var self = this;
+        Object.getOwnPropertyNames(values).forEach(function (name) {
+            Object.defineProperty(
+                self, name, Object.getOwnPropertyDescriptor(values, name)
+            );
+        });
+    }
+
+    function makeContext(ctx) {
+        // an extending template gives its own context
+        return ctx instanceof TemplateContext ? ctx : new TemplateContext(ctx);
+    }
+
     function addToContext(ctx, name, value) {
         if (!ctx.hasOwnProperty(name)) {
             ctx[name] = value;
@@ -192,6 +208,8 @@ define([], function () {
 
         literal: function (val) { return new Markup(String(val)); },
 
+        makeContext: makeContext,
+
         addToContext: addToContext,
 
         bindFromContext: bindFromContext,
-- 
2.43.0


From fd4d7c80f7b04589667b19d8551ffc4c56fc4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 20/44] fix: name the functions of compiled JavaScript by their
 template only

The names were numbered through the whole process, so the output depended
on what had been compiled before.
---
 tonnikala/languages/javascript/generator.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index f36c161..4c77ffc 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -71,7 +71,6 @@ try:
 except ImportError:
     HAS_ASSERT = False
 
-name_counter = 0
 ALWAYS_BUILTINS = """
     undefined
 """.split()
@@ -175,12 +174,6 @@ def get_func_name(func):
     return func.identifier.value
 
 
-def gen_name():
-    global name_counter
-    name_counter += 1
-    return "__TK__%d__" % name_counter
-
-
 def static_expr_to_bool(expr):
     # currently not supported at all
     # TODO: implement
@@ -230,8 +223,8 @@ class JavascriptNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body, arguments=(), values=()):
-        name = gen_name()
+    def generate_varscope(self, generator, body, arguments=(), values=()):
+        name = generator.gen_name()
         return [
             self.make_function(name, body, arguments=arguments),
             Expr(SimpleCall(NameX(name), list(values))),
@@ -510,7 +503,9 @@ class JsWithNode(JsComplexNode):
                 and assign.op == "="
                 and isinstance(assign.left, Identifier)
             ):
-                body = self.generate_varscope(body, [assign.left], [assign.right])
+                body = self.generate_varscope(
+                    generator, body, [assign.left], [assign.right]
+                )
             else:
                 body = [i] + body
 
@@ -808,6 +803,11 @@ class Generator(BaseGenerator):
         self.extended_href = None
         self.imports = []
         self.import_sources = []
+        self.name_counter = 0
+
+    def gen_name(self):
+        self.name_counter += 1
+        return "__TK__%d__" % self.name_counter
 
     def add_bind_decorator(self, block):
         name = block.identifier.value
-- 
2.43.0


From 2ee5db573d13c7ca41920f5a804e096541748394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 21/44] fix: let JavaScript templates use literal()

It was bound to a variable of the context, hiding that of the runtime.
---
 tonnikala/runtime/javascript.js | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index 8f755dd..fb7cf3d 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -1,7 +1,8 @@
 define([], function () {
     'use strict';
     var globals = typeof window == 'undefined' ? global : window,
-        map = Array.prototype.map;
+        map = Array.prototype.map,
+        builtins;
 
     function Markup(s) {
         this.s = s;
@@ -175,12 +176,19 @@ define([], function () {
         }
     }
 
+    function literal(val) {
+        return new Markup(String(val));
+    }
+
+    // what templates can use, if neither the context nor a global has the name
+    builtins = { literal: literal };
+
     function bindFromContext(ctx, name) {
         if (ctx.hasOwnProperty(name)) {
             return ctx[name];
         }
 
-        return globals[name];
+        return name in globals ? globals[name] : builtins[name];
     }
 
     return {
@@ -206,7 +214,7 @@ define([], function () {
 
         BoundTemplate: BoundTemplate,
 
-        literal: function (val) { return new Markup(String(val)); },
+        literal: literal,
 
         makeContext: makeContext,
 
-- 
2.43.0


From ce75799d0642d20f6ec5a258779ccbd2d4757eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 22/44] fix: write all of the compiled template to an
 unbuffered stdout

With PYTHONUNBUFFERED set, a write of only a part to stdout, as to a
nearly full disk, was not noticed.
---
 bin/tonnikala-compile-jstemplate | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/tonnikala-compile-jstemplate b/bin/tonnikala-compile-jstemplate
index ca2e7db..f3a02fb 100755
--- a/bin/tonnikala-compile-jstemplate
+++ b/bin/tonnikala-compile-jstemplate
@@ -15,9 +15,11 @@ compiled = JSLoader().load_string(args.source.read())
 # the target is opened only now so that a failed compilation does not truncate
 # it, and closed explicitly, as errors are ignored when it is closed at exit
 if args.target == '-':
-    sys.stdout.write(compiled)
-    sys.stdout.flush()
+    # an unbuffered sys.stdout ignores that only a part could be written
+    target = open(sys.stdout.fileno(), 'w', closefd=False,
+                  encoding=sys.stdout.encoding, errors=sys.stdout.errors)
 else:
-    with open(args.target, 'w') as target:
-        target.write(compiled)
+    target = open(args.target, 'w')
 
+with target:
+    target.write(compiled)
-- 
2.43.0


From e66eb55e2220461fb2f07eefee6322b735341d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 23/44] fix: keep the context of an exception raised by a
 template

Rendering while another exception was being handled, for example an error
page, replaced the __context__ of the exceptions raised in the template.
---
 tonnikala/loader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 5cfaec9..7ad97d0 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -88,9 +88,15 @@ def handle_exception(exc_info=None, source_hint=None, tb_override=_NO):
     if tb_override is not _NO:  # pragma: no cover
         tb = tb_override
 
-    traceback = _make_traceback((exc_type, exc_value, tb), source_hint)
-    exc_type, exc_value, tb = traceback.standard_exc_info
-    reraise(exc_type, exc_value, tb)
+    # raising an exception again while another one is being handled would
+    # replace its context
+    context = exc_value.__context__
+    try:
+        traceback = _make_traceback((exc_type, exc_value, tb), source_hint)
+        exc_type, exc_value, tb = traceback.standard_exc_info
+        reraise(exc_type, exc_value, tb)
+    finally:
+        exc_value.__context__ = context
 
 
 class Template(object):
-- 
2.43.0


From 4b0dbc4d34515404a528696dc934d18e1dc93792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 24/44] fix: do not take the literal braces of an f-string for
 the end of an expression

---
 tonnikala/languages/python/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index b02a079..5bc9f9b 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -71,6 +71,10 @@ def parse_brace_enclosed_expression(text, start_pos, position):
 
     tokens = gen_tokens(text, start_pos + 2)
     for t_type, content, end_pos in tokens:
+        # the literal parts of f-strings are tokens too
+        if t_type != token.OP:
+            continue
+
         if content == "}":
             if n_braces <= 0:
                 valid = True
@@ -108,10 +112,10 @@ def parse_unenclosed_expression(text, start_pos, position):
 
         # a braced expression is started, consume it
         for t_type, content, end_pos in gen_tokens(text, pos):
-            if content in braces:
+            if t_type == token.OP and content in braces:
                 pars.append(content)
 
-            elif content in braces.values():
+            elif t_type == token.OP and content in braces.values():
                 last = pars.pop()
                 if braces[last] != content:
                     raise TemplateSyntaxError(
-- 
2.43.0


From a269d0ae7d85379c3e981b3e0dce22318b6d2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 25/44] fix: extract messages with the newlines that the
 template looks up

---
 tonnikala/i18n/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 68d1e08..6cb86c7 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -23,10 +23,13 @@ class TonnikalaExtractor(Extractor):
     def __call__(self, filename, options, fileobj=None, lineno=0):
         self.filename = filename
         if fileobj is None:
-            fileobj = io.open(filename, encoding="utf-8")
+            # the loader does not translate newlines either
+            with io.open(filename, encoding="utf-8", newline="") as fileobj:
+                source = fileobj.read()
+        else:
+            source = fileobj.read()
 
         parser_func = parsers.get(self.syntax)
-        source = fileobj.read()
         if isinstance(source, bytes):
             source = source.decode("UTF-8")
 
-- 
2.43.0


From 209f9b76e25f534ac2259b9d17e723b0575c3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 26/44] fix: extract messages from all expressions of a
 template

---
 tonnikala/i18n/__init__.py | 44 +++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 6cb86c7..8de560e 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -3,7 +3,17 @@ import io
 from lingua.extractors import Extractor
 from lingua.extractors import Message
 from lingua.extractors.python import _extract_python
-from tonnikala.ir.nodes import TranslatableText, Expression
+from tonnikala.ir.nodes import (
+    Code,
+    Define,
+    DynamicAttributes,
+    Expression,
+    For,
+    If,
+    TranslatableText,
+    Unless,
+    With,
+)
 from tonnikala.loader import parsers
 
 
@@ -13,9 +23,28 @@ class TonnikalaExtractor(Extractor):
     extensions = [".tk"]
     syntax = "tonnikala"
 
-    def parse_python(self, node, filename, lineno, options):
+    def get_python_source(self, node):
+        """The Python code of the node, or None if it does not have any"""
+        if isinstance(node, Expression):
+            return node.expression
+
+        if isinstance(node, (DynamicAttributes, For, If, Unless)):
+            return "(%s\n)" % node.expression
+
+        if isinstance(node, Define):
+            return "(def %s\n)" % node.funcspec
+
+        if isinstance(node, With):
+            return node.vars
+
+        if isinstance(node, Code):
+            return node.source
+
+        return None
+
+    def parse_python(self, node, python_source, filename, lineno, options):
         start_line = (node.position[0] or 1) + lineno
-        for message in _extract_python(filename, node.expression, options, start_line):
+        for message in _extract_python(filename, python_source, options, start_line):
             yield Message(
                 *message[:6], location=(filename, lineno + message.location[1])
             )
@@ -46,8 +75,13 @@ class TonnikalaExtractor(Extractor):
                     u"",
                     (filename, lineno + (node.position[0] or 1)),
                 )
-            elif isinstance(node, Expression):
-                for m in self.parse_python(node, filename, lineno, options):
+                continue
+
+            python_source = self.get_python_source(node)
+            if python_source is not None:
+                for m in self.parse_python(
+                    node, python_source, filename, lineno, options
+                ):
                     yield m
 
 
-- 
2.43.0


From 13d4416d323e58adc244564032ce40da1e6fc016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 27/44] fix: do not load a template cut off within a character

---
 tonnikala/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 7ad97d0..408cbd4 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -1,5 +1,5 @@
-import codecs
 import errno
+import io
 import os
 import sys
 import threading
@@ -307,7 +307,7 @@ class FileLoader(Loader):
         if not path:
             raise OSError(errno.ENOENT, "File not found: %s" % name)
 
-        with codecs.open(path, "r", encoding="UTF-8") as f:
+        with io.open(path, "r", encoding="UTF-8", newline="") as f:
             # before reading: should the file change meanwhile, the
             # next check notices it
             mtime = os.fstat(f.fileno()).st_mtime
-- 
2.43.0


From b5eaa2c82b20b8d49635b896be2192e25f293d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 28/44] fix: reject JavaScript expressions that are several
 statements

---
 tonnikala/languages/javascript/generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 4c77ffc..64f6b50 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -155,7 +155,11 @@ class FreeVarFinder(object):
 
 def parse(expression, mode="eval"):
     if mode == "eval":
-        return Parser().parse(expression).children()[0].expr
+        statements = Parser().parse(expression).children()
+        if len(statements) != 1 or not isinstance(statements[0], ExprStatement):
+            raise SyntaxError("Not a single expression: %s" % expression)
+
+        return statements[0].expr
     elif mode == "exec":
         return Parser().parse(expression).children()
 
-- 
2.43.0


From 012b35f4996a67f2ea495f10b47c07476e9e1697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 29/44] fix: report template syntax errors that have no known
 line

---
 tonnikala/languages/javascript/generator.py | 3 ++-
 tonnikala/runtime/exceptions.py             | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 64f6b50..c926829 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -494,7 +494,8 @@ class JsWithNode(JsComplexNode):
         for i in var_defs:
             if not isinstance(i, ast.ExprStatement):
                 raise TemplateSyntaxError(
-                    "Only assignment statements allowed in With; not %s" % self.vars
+                    "Only assignment statements allowed in With; not %s" % self.vars,
+                    node=self.vars,
                 )
 
         body = self.generate_child_ast(generator, self)
diff --git a/tonnikala/runtime/exceptions.py b/tonnikala/runtime/exceptions.py
index 4cff6c8..bcb7cff 100644
--- a/tonnikala/runtime/exceptions.py
+++ b/tonnikala/runtime/exceptions.py
@@ -28,6 +28,10 @@ class TemplateSyntaxError(TemplateError):
         if self.translated:
             return self.message
 
+        # nor is there anything to attach if the line is not known
+        if self.lineno is None:
+            return self.message
+
         # otherwise attach some stuff
         location = "line %d" % self.lineno
         name = self.filename or self.name
-- 
2.43.0


From a703c23ef976abc15fc31c74eb4a6dbd423394d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 30/44] fix: reject illegal characters in JavaScript
 expressions

---
 tonnikala/languages/javascript/generator.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index c926829..260a528 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -16,6 +16,7 @@ from slimit.ast import (
     Return as JSReturn,
     FuncDecl,
 )
+from slimit.lexer import Lexer
 from slimit.parser import Parser
 from slimit.scope import SymbolTable
 from slimit.visitors.scopevisitor import (
@@ -153,15 +154,31 @@ class FreeVarFinder(object):
         return free_var_analysis.free_variables
 
 
+class JsLexer(Lexer):
+    def t_error(self, token):
+        # the lexer of slimit prints a message and skips the character
+        raise SyntaxError(
+            "Illegal character %r at %s:%s"
+            % (token.value[0], token.lineno, token.lexpos)
+        )
+
+
+def parse_program(source):
+    parser = Parser()
+    parser.lexer = JsLexer()
+    parser.lexer.build(optimize=parser.lex_optimize, lextab=parser.lextab)
+    return parser.parse(source)
+
+
 def parse(expression, mode="eval"):
     if mode == "eval":
-        statements = Parser().parse(expression).children()
+        statements = parse_program(expression).children()
         if len(statements) != 1 or not isinstance(statements[0], ExprStatement):
             raise SyntaxError("Not a single expression: %s" % expression)
 
         return statements[0].expr
     elif mode == "exec":
-        return Parser().parse(expression).children()
+        return parse_program(expression).children()
 
     raise TypeError("Only eval, exec modes allowed")
 
-- 
2.43.0


From 8466e13c2aa41196a7cce275a59a37056e8a640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 31/44] fix: do not take a comma in a JavaScript expression for
 a further argument

---
 tonnikala/languages/javascript/generator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 260a528..b5a5f6b 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -176,7 +176,12 @@ def parse(expression, mode="eval"):
         if len(statements) != 1 or not isinstance(statements[0], ExprStatement):
             raise SyntaxError("Not a single expression: %s" % expression)
 
-        return statements[0].expr
+        expr = statements[0].expr
+        if isinstance(expr, ast.Comma):
+            # it is not several arguments of the function that gets its value
+            expr._parens = True
+
+        return expr
     elif mode == "exec":
         return parse_program(expression).children()
 
@@ -461,11 +466,12 @@ class JsForNode(JsComplexNode):
 
     def generate_contents(self, generator, parent):
         body = get_fragment_ast(
-            "__TK__foreach(%s, function (%s) { });" % (self.expression, self.vars),
+            "__TK__foreach(0, function (%s) { });" % self.vars,
             "exec",
         )
 
         for_node = body[0]
+        for_node.expr.args[0] = get_fragment_ast(self.expression)
         func_frame = for_node.expr.args[1]
         func_frame.elements = self.generate_child_ast(generator, self)
         return [for_node]
-- 
2.43.0


From 70c3d3951ef515ef5dfd1a15bec4080e17b72dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 32/44] fix: load templates with a py:for, py:def or py:block
 value at the start of a line

---
 tonnikala/languages/python/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index d6dab84..398e3ec 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -95,9 +95,10 @@ def adjust_locations(ast_node, first_lineno, first_offset):
                 lineno = getattr(node, lineno_attr)
                 col = getattr(node, col_offset_attr)
 
-                # adjust the offset on the first line
+                # adjust the offset on the first line; the code before an
+                # expression may be longer than what precedes it
                 if lineno == 1:
-                    col += first_offset
+                    col = max(col + first_offset, 0)
 
                 lineno += line_delta
 
-- 
2.43.0


From d7c3cd29ad5f08795b466aa42562a898ede6a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 33/44] fix: do not count newlines written as character
 references as lines

---
 tonnikala/helpers/__init__.py   | 15 ++++++++++++--
 tonnikala/syntaxes/docparser.py | 35 ++++++++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/tonnikala/helpers/__init__.py b/tonnikala/helpers/__init__.py
index c6ba372..3e2b70a 100644
--- a/tonnikala/helpers/__init__.py
+++ b/tonnikala/helpers/__init__.py
@@ -18,9 +18,14 @@ def internalcode(f):
 
 
 class StringWithLocation(str):
-    def __new__(cls, value: str, lineno, offset):
+    def __new__(cls, value: str, lineno, offset, references=()):
+        """
+        :param references: the indices of the newlines that are character
+            references in the source, where no new line starts
+        """
         val = str.__new__(cls, value)
         val.position = lineno, offset
+        val.references = references
         return val
 
     def __getslice__(self, start, end):
@@ -30,8 +35,14 @@ class StringWithLocation(str):
         s = str(self)
         if isinstance(i, slice):
             start = i.indices(len(self))[0]
+            references = [j - start for j in self.references if j >= start]
+            for j in self.references:
+                s = s[:j] + " " + s[j + 1 :]
+
             position = calculate_position(s, start, self.position)
-            return StringWithLocation(s[i], position[0], position[1])
+            return StringWithLocation(
+                str(self)[i], position[0], position[1], references
+            )
 
         return s[i]
 
diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index fe98536..98510b0 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -1,5 +1,6 @@
 """XML parser"""
 
+import re
 import sys
 from html import parser as html_parser
 from html.entities import entitydefs as html_entity_defs
@@ -138,6 +139,23 @@ else:
     tagfind = html_parser.tagfind
 
 
+newline_find = re.compile(
+    r"\n|&(?:#0*10(?![0-9])|#[xX]0*[aA](?![0-9a-fA-F])|NewLine;)"
+)
+
+
+def find_newline_references(source, text):
+    """
+    Find the newlines of an attribute value that are character references
+
+    :param source: the source of the value
+    :param text: the value
+    :return: their indices in the value
+    """
+    newlines = (i for i, c in enumerate(text) if c == "\n")
+    return [i for i, s in zip(newlines, newline_find.findall(source)) if s != "\n"]
+
+
 # object to force a new-style class!
 class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     void_elements = {
@@ -172,6 +190,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         self.elements = []
         self.characters = None
         self.characters_start = None
+        self.characters_references = []
 
     def parse(self):
         self.doc = dom.Document()
@@ -200,7 +219,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                     return
 
             line, offset = self.characters_start
-            text = StringWithLocation(text, line, offset)
+            text = StringWithLocation(text, line, offset, self.characters_references)
             node = self.doc.createTextNode(text)
             node.position = line, offset
             self.elements[-1].appendChild(node)
@@ -219,12 +238,13 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
     def find_attr_positions(self, attrs):
         if not attrs:
-            return {}
+            return {}, {}
 
         source = self.get_starttag_text()
         match = tagfind.match(source, 1)
         start = match.end()
         attr_pos = {}
+        attr_source = {}
 
         lineoffset = source[:start].count("\n")
         colpos = start - source[:start].rfind("\n") if lineoffset else start + 1
@@ -248,9 +268,10 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
             attrname = m.group(1).lower()
             attr_pos[attrname] = self.delta(lineoffset, colpos)
+            attr_source[attrname] = m.group(3)
             start = attrstart
 
-        return attr_pos
+        return attr_pos, attr_source
 
     def getlineno(self):
         return self.getpos()[0]
@@ -258,7 +279,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_starttag(self, name, attrs, self_closing=False):
         self.flush_character_data()
 
-        attr_pos = self.find_attr_positions(attrs)
+        attr_pos, attr_source = self.find_attr_positions(attrs)
         el = self.doc.createElement(name)
         el.name = name
         el.position = self.getpos()
@@ -267,6 +288,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             if k in attr_pos:
                 l, o = attr_pos[k]
                 v = StringWithLocation(v, l, o)
+                v.references = find_newline_references(attr_source[k], v)
 
             el.setAttribute(k, v)
 
@@ -292,6 +314,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         if not self.characters:
             self.characters = []
             self.characters_start = self.getpos()
+            self.characters_references = []
 
         self.characters.append(content)
 
@@ -341,7 +364,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 cp = int(code, 10)
 
             content = chr(cp)
-            return self.handle_data(content)
+            self.handle_data(content)
+            if content == "\n":
+                self.characters_references.append(sum(map(len, self.characters)) - 1)
         except Exception as e:
             self.syntax_error("Invalid HTML charref &#%s;: %s" % (code, e))
 
-- 
2.43.0


From 7ce08dd0402baaa89cb661923fd2dead2fdf1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 34/44] fix: report an invalid block name with its location

---
 tonnikala/languages/python/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 398e3ec..aec5fe0 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -6,6 +6,7 @@ from ast import (
     Str, Name, Load, Store, Not, arg, Raise, Return
 )
 from collections.abc import Iterable
+from keyword import iskeyword
 
 from .astalyzer import FreeVarFinder
 from ..base import LanguageNode, ComplexNode, BaseGenerator
@@ -500,6 +501,9 @@ class PyBlockNode(PyComplexNode):
         is_extended = isinstance(parent, PyExtendsNode)
 
         name = self.name
+        if not name.isidentifier() or iskeyword(name):
+            raise TemplateSyntaxError('Invalid block name "%s"' % name, node=name)
+
         blockfunc_name = f"__TK__block__{name}"
         position = getattr(name, "position", (1, 0))
         body = get_fragment_ast(
-- 
2.43.0


From a2867c3ec6419ee47aa674b69dec3b3c777a4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 35/44] fix: report a processing instruction without content
 with its location

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 98510b0..c01cc50 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -324,6 +324,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
         source = "<?" + data
+        if len(data.split(None, 1)) < 2:
+            self.syntax_error("Processing instruction without content")
+
         type_, data = data.split(None, 1)
         line, offset = calculate_position(
             source, len(source) - len(data), self.getpos()
-- 
2.43.0


From e41c14850d2e44c7c4dc192087845fc0ec1b6b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 36/44] fix: allow control structures without content

---
 tonnikala/languages/python/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index aec5fe0..5315eaa 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -332,7 +332,8 @@ class PyIfNode(PyComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(test=test, body=self.generate_child_ast(generator, self), orelse=[])
+        body = self.generate_child_ast(generator, self) or [Pass()]
+        node = If(test=test, body=body, orelse=[])
         return [node]
 
 
@@ -437,7 +438,7 @@ class PyForNode(PyComplexNode):
             "exec",
         )
         for_node = body[0]
-        for_node.body = self.generate_child_ast(generator, self)
+        for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From 4e8fa6f137963321f5eeca8791353688481274cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 37/44] fix: allow a document type in Chameleon templates

---
 tonnikala/syntaxes/chameleon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 0e0d1a4..0b42c34 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -135,6 +135,9 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
+        if node_t == Node.DOCUMENT_TYPE_NODE:
+            return EscapedText(dom_node.toxml())
+
         raise ValueError("Unhandled node type %d" % node_t)
 
 
-- 
2.43.0


From 92e4163de70210b697456d82880417b543786e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 38/44] fix: let the default values of a function's arguments
 use the context

---
 tonnikala/languages/python/generator.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 5315eaa..0813446 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -733,6 +733,23 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
+        def assign_from_context(names):
+            return "".join(
+                '    if "%s" in __TK__context:\n'
+                '        %s = __TK__context["%s"]\n' % (i, i, i)
+                for i in names
+            )
+
+        # the default values of the arguments are evaluated along with the
+        # definitions of the functions
+        defaults = FreeVarFinder()
+        for i in generator.top_defs:
+            defaults.do_visit_lambda_defaults(i.args)
+
+        code += assign_from_context(
+            free_variables.intersection(defaults.get_free_variables())
+        )
+
         code += "    raise\n"  # a placeholder
 
         if extended:
@@ -740,10 +757,7 @@ class PyRootNode(PyComplexNode):
             code += "    __TK__parent_template.binder_func(\n"
             code += "        __TK__context, __TK__original_context)\n"
 
-        for i in free_variables:
-            code += '    if "%s" in __TK__context:\n' % i
-            code += '        %s = __TK__context["%s"]\n' % (i, i)
-
+        code += assign_from_context(free_variables)
         code += "    return __TK__context\n"
 
         tree = ast.parse(code)
-- 
2.43.0


From 8479e61eef53c80213252350b40d0756d69c3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 39/44] fix: do not change a TemplateSyntaxError raised within
 a render

---
 tonnikala/runtime/debug.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/runtime/debug.py b/tonnikala/runtime/debug.py
index 3ae9833..585554d 100644
--- a/tonnikala/runtime/debug.py
+++ b/tonnikala/runtime/debug.py
@@ -171,7 +171,9 @@ class ProcessedTraceback(object):
 def make_traceback(exc_info, source_hint=None):
     """Creates a processed traceback object from the exc_info."""
     exc_type, exc_value, tb = exc_info
-    if isinstance(exc_value, TemplateSyntaxError):
+    # one without a traceback is that of the template being compiled; any other
+    # has been raised while a template was rendered
+    if isinstance(exc_value, TemplateSyntaxError) and tb is None:
         exc_info = translate_syntax_error(exc_value, source_hint)
         initial_skip = 0
     else:
-- 
2.43.0


From 4eef6f3bebbef823b9d61a03827d31b595e819e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 40/44] fix: do not swallow an interrupt of the compiler

---
 tonnikala/languages/python/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 0813446..5046f72 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -158,7 +158,7 @@ def static_eval(expr):
 def static_expr_to_bool(expr):
     try:
         return bool(static_eval(expr))
-    except BaseException:
+    except (ValueError, TypeError, RecursionError):
         return None
 
 
-- 
2.43.0


From f6b3f5e0cee287e26696bcf2710c549b96e9ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 41/44] fix: do not report a lack of memory as an invalid
 character reference

---
 tonnikala/syntaxes/docparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index c01cc50..9a92213 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -370,7 +370,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             self.handle_data(content)
             if content == "\n":
                 self.characters_references.append(sum(map(len, self.characters)) - 1)
-        except Exception as e:
+        except (ValueError, OverflowError) as e:
             self.syntax_error("Invalid HTML charref &#%s;: %s" % (code, e))
 
     # LexicalHandler implementation
-- 
2.43.0


From aac4cb3f2da73292679589c79ea28558026a4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 42/44] fix: let browser templates use the name hasOwnProperty

---
 tonnikala/runtime/javascript.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index fb7cf3d..6102cff 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -2,6 +2,7 @@ define([], function () {
     'use strict';
     var globals = typeof window == 'undefined' ? global : window,
         map = Array.prototype.map,
+        hasOwn = Object.prototype.hasOwnProperty,
         builtins;
 
     function Markup(s) {
@@ -171,7 +172,7 @@ define([], function () {
     }
 
     function addToContext(ctx, name, value) {
-        if (!ctx.hasOwnProperty(name)) {
+        if (!hasOwn.call(ctx, name)) {
             ctx[name] = value;
         }
     }
@@ -184,7 +185,7 @@ define([], function () {
     builtins = { literal: literal };
 
     function bindFromContext(ctx, name) {
-        if (ctx.hasOwnProperty(name)) {
+        if (hasOwn.call(ctx, name)) {
             return ctx[name];
         }
 
-- 
2.43.0


From e6eeddcdc6d59a8547c17039b67ee461c3aebe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:50 +0000
Subject: [PATCH 43/44] fix: do not lose an interrupt of the error handling

---
 tonnikala/runtime/debug.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tonnikala/runtime/debug.py b/tonnikala/runtime/debug.py
index 585554d..c0fc426 100644
--- a/tonnikala/runtime/debug.py
+++ b/tonnikala/runtime/debug.py
@@ -318,7 +318,11 @@ def fake_exc_info(exc_info, filename, lineno):
     try:
         new_tb = None
         exec(code, globals, locals)
-    except BaseException:
+    except BaseException as e:
+        # an interrupt that arrives meanwhile is not the exception being faked
+        if e is not exc_value and not isinstance(e, Exception):
+            raise
+
         exc_info = sys.exc_info()
         new_tb = exc_info[2].tb_next
 
-- 
2.43.0


From d34b0c54263cfdbfdb41aca8be8da2237b5947e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 44/44] fix: a comprehension variable does not hide the context
 variable of the same name

---
 tonnikala/languages/python/astalyzer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 05382d5..6330aab 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -47,6 +47,23 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    def visit_comprehension_scope(self, node):
+        # the targets are visible in the comprehension only; its first
+        # iterable is evaluated outside of it, and := binds outside of it
+        subscoper = FreeVarFinder()
+        subscoper.generic_visit(node)
+        for child in ast.walk(node):
+            if type(child).__name__ == "NamedExpr":
+                self.masked.add(child.target.id)
+
+        self.vars = self.vars.union(subscoper.get_free_variables())
+        self.visit(node.generators[0].iter)
+
+    visit_ListComp = visit_comprehension_scope
+    visit_SetComp = visit_comprehension_scope
+    visit_DictComp = visit_comprehension_scope
+    visit_GeneratorExp = visit_comprehension_scope
+
     def visit_arguments(self, node):
         pass
 
-- 
2.43.0

