From ae63800eae223e945dd9719d09ca47ab543e3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 01/60] fix: parse markup within title and textarea as before
 html.parser changed

---
 tonnikala/syntaxes/docparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index acbec61..48851c2 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -158,6 +158,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         "wbr",
     }
 
+    # newer versions of html.parser treat the contents of several other
+    # elements as raw text; in templates only these two are, so that control
+    # elements and comments are available e.g. within <title>
+    CDATA_CONTENT_ELEMENTS = ("script", "style")
+    RCDATA_CONTENT_ELEMENTS = ()
+
     def __init__(self, filename, source):
         super(TonnikalaHTMLParser, self).__init__(**html_parser_extra_kw)
         self.filename = filename
-- 
2.43.0


From 1f01c692646087116caa5d62ad91e074c0c3de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 02/60] fix: let py:def and py:block use the names of Python
 builtins

---
 tonnikala/runtime/python.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 9716492..bf85435 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -1,3 +1,4 @@
+import builtins
 from collections.abc import Mapping
 from markupsafe import escape
 
@@ -72,6 +73,19 @@ def output_attrs(values):
     return rv
 
 
+_UNSET = object()
+
+
+def _is_bound(context, name):
+    """
+    Whether the context provides a value for the name; the Python
+    builtins that every context contains do not count.
+    """
+
+    value = context.get(name, _UNSET)
+    return value is not _UNSET and value is not getattr(builtins, name, _UNSET)
+
+
 def bind(context, block=False):
     """
     Given the context, returns a decorator wrapper;
@@ -84,7 +98,7 @@ def bind(context, block=False):
 
         def decorate(func):
             name = func.__name__.replace("__TK__block__", "")
-            if name not in context:
+            if not _is_bound(context, name):
                 context[name] = func
             return context[name]
 
@@ -92,7 +106,7 @@ def bind(context, block=False):
 
     def decorate(func):
         name = func.__name__
-        if name not in context:
+        if not _is_bound(context, name):
             context[name] = func
         return context[name]
 
-- 
2.43.0


From 3dce687202b2f5f42d0d51222bc33e495e51a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 03/60] fix: do not escape the value of literal() when it is
 not optimized away

---
 tonnikala/loader.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 825ad9f..0f81d3e 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -5,6 +5,8 @@ import sys
 import time
 from typing import Iterable, Optional
 
+from markupsafe import Markup
+
 from .helpers import reraise
 from .languages.javascript.generator import Generator as JavascriptGenerator
 from .languages.python.generator import Generator as PythonGenerator
@@ -28,8 +30,21 @@ class Helpers:
 
 escape = python.escape
 
+
+def literal(value):
+    """
+    Mark the value as not needing escaping. None and booleans
+    are kept as they are, for boolean attributes.
+    """
+
+    if value is None or isinstance(value, bool) or hasattr(value, "__html__"):
+        return value
+
+    return Markup(value)
+
+
 helpers = Helpers()
-helpers.literal = lambda x: x
+helpers.literal = literal
 helpers.gettext = lambda x: x
 helpers.egettext = lambda x: escape(x)
 
-- 
2.43.0


From 24f291ea1490e82dbef4455b8db7a73cf6db166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 04/60] fix: do not let comprehension targets mask context
 variables elsewhere

---
 tonnikala/languages/python/astalyzer.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 05382d5..9aa44ca 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -47,6 +47,29 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    def visit_comprehension_scope(self, node):
+        """
+        The targets of a comprehension are local to it, and do not mask
+        the same names elsewhere. Its first iterable is evaluated in the
+        enclosing scope; assignment expressions also bind there.
+        """
+
+        self.visit(node.generators[0].iter)
+
+        targets = FreeVarFinder()
+        for generator in node.generators:
+            targets.visit(generator.target)
+
+        subscoper = FreeVarFinder(targets.masked)
+        subscoper.generic_visit(node)
+        self.vars |= subscoper.get_free_variables()
+        self.masked |= subscoper.masked - targets.masked
+
+    visit_ListComp = visit_comprehension_scope
+    visit_SetComp = visit_comprehension_scope
+    visit_DictComp = visit_comprehension_scope
+    visit_GeneratorExp = visit_comprehension_scope
+
     def visit_arguments(self, node):
         pass
 
-- 
2.43.0


From 4dd09738a21148a9117f393a4fc50f1ea0a1ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 05/60] fix: support the documented py:unless

---
 tonnikala/syntaxes/tonnikala.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 102a7f6..373e346 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -4,6 +4,7 @@ from xml.dom.minidom import Node
 from tonnikala.ir.nodes import (
     Element,
     If,
+    Unless,
     For,
     Define,
     Import,
@@ -130,6 +131,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         make_control_node("extends", Extends, "href")
         make_control_node("block", Block, "name")
         make_control_node("if", If, "test")
+        make_control_node("unless", Unless, "test")
         make_control_node("for", For, "each")
         make_control_node("def", Define, "function")
         make_control_node("import", Import, "href", "alias")
@@ -148,6 +150,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         make_control_node_of_attr(Block, "block")
         make_control_node_of_attr(If, "if")
+        make_control_node_of_attr(Unless, "unless")
         make_control_node_of_attr(For, "for")
         make_control_node_of_attr(Define, "def")
         make_control_node_of_attr(With, "with")
-- 
2.43.0


From 857bce8110efb74cb9888ef8224d2cfdcfdf2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 06/60] fix: accept valueless attributes and doctypes in
 Chameleon templates

---
 tonnikala/syntaxes/chameleon.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 0e0d1a4..2ff7c3b 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -1,6 +1,13 @@
 """XML parser"""
 
-from tonnikala.ir.nodes import Element, If, For, EscapedText, Expression
+from tonnikala.ir.nodes import (
+    Element,
+    If,
+    For,
+    EscapedText,
+    Expression,
+    EmptyAttrVal,
+)
 from xml.dom.minidom import Node
 
 from tonnikala.expr import handle_text_node  # TODO: move this elsewhere.
@@ -17,7 +24,11 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
 
     def generate_attributes_for_node(self, dom_node, ir_node):
         attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
-        attrs = [(k, handle_text_node(v)) for (k, v) in dom_node.attributes.items()]
+        # None is an attribute without a value
+        attrs = [
+            (k, EmptyAttrVal() if v is None else handle_text_node(v))
+            for (k, v) in dom_node.attributes.items()
+        ]
         self.generate_attributes(ir_node, attrs=attrs, dynamic_attrs=attrs_node)
 
     def is_control_name(self, name, to_match):
@@ -135,6 +146,10 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
+        if node_t == Node.DOCUMENT_TYPE_NODE:
+            ir_node = EscapedText(dom_node.toxml())
+            return ir_node
+
         raise ValueError("Unhandled node type %d" % node_t)
 
 
-- 
2.43.0


From 4d866dd2341001aeeba9e44013878e305c360766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 07/60] fix: remove only the deleted template from the cache on
 reload check

---
 tonnikala/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 0f81d3e..6428c0b 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -264,11 +264,13 @@ class FileLoader(Loader):
             return
 
         for name, tmpl in list(self.cache.items()):
-            if not os.stat(tmpl.path):
+            try:
+                mtime = os.stat(tmpl.path).st_mtime
+            except FileNotFoundError:
                 self.cache.pop(name)
                 continue
 
-            if os.stat(tmpl.path).st_mtime > tmpl.mtime:
+            if mtime > tmpl.mtime:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From 017d6bb5647974006e233867a69e4c27c212997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 08/60] fix: reload templates that were replaced by an older
 file

---
 tonnikala/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 6428c0b..7f30635 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -270,7 +270,7 @@ class FileLoader(Loader):
                 self.cache.pop(name)
                 continue
 
-            if mtime > tmpl.mtime:
+            if mtime != tmpl.mtime:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From 94c05357064af858c6d6c97b01113496a2cc81d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 09/60] fix: reload also the dependents of a template deleted
 and created anew

---
 tonnikala/loader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 7f30635..58b1178 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -230,6 +230,7 @@ class FileLoader(Loader):
         super(FileLoader, self).__init__(*args, debug=debug, syntax=syntax, **kwargs)
 
         self.cache = {}
+        self._deleted_paths = set()
         self.paths = list(paths)
         self.reload = False
         self._last_reload_check = time.time()
@@ -257,17 +258,25 @@ class FileLoader(Loader):
         If enough time since last check has elapsed, check if any
         of the cached templates has changed. If any of the template
         files were deleted, remove that file only. If any were
-        changed, then purge the entire cache.
+        changed, or created anew after having been deleted, then
+        purge the entire cache.
         """
 
         if self._last_reload_check + MIN_CHECK_INTERVAL > time.time():
             return
 
+        # other templates in the cache can depend on these
+        for path in list(self._deleted_paths):
+            if os.path.exists(path):
+                self.cache.clear()
+                self._deleted_paths.remove(path)
+
         for name, tmpl in list(self.cache.items()):
             try:
                 mtime = os.stat(tmpl.path).st_mtime
             except FileNotFoundError:
                 self.cache.pop(name)
+                self._deleted_paths.add(tmpl.path)
                 continue
 
             if mtime != tmpl.mtime:
-- 
2.43.0


From e6d14d7a26d775a223abc79ad5447b06ef3d0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 10/60] fix: notice template changes made while the template is
 being read

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 58b1178..7ae1630 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -305,8 +305,9 @@ class FileLoader(Loader):
             raise OSError(errno.ENOENT, "File not found: %s" % name)
 
         with codecs.open(path, "r", encoding="UTF-8") as f:
-            contents = f.read()
+            # if the file changes after this, it will be reloaded
             mtime = os.fstat(f.fileno()).st_mtime
+            contents = f.read()
 
         template = self.load_string(contents, filename=path)
         template.mtime = mtime
-- 
2.43.0


From 649a4d7b03847597dc467f5ca8949bfd48b3e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 11/60] fix: make loading templates from files thread-safe

---
 tonnikala/loader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 7ae1630..afbf0d2 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -2,6 +2,7 @@ import codecs
 import errno
 import os
 import sys
+import threading
 import time
 from typing import Iterable, Optional
 
@@ -229,6 +230,9 @@ class FileLoader(Loader):
     ):
         super(FileLoader, self).__init__(*args, debug=debug, syntax=syntax, **kwargs)
 
+        # loading a template can load others, and the cache
+        # must stay consistent over that
+        self._lock = threading.RLock()
         self.cache = {}
         self._deleted_paths = set()
         self.paths = list(paths)
@@ -293,6 +297,10 @@ class FileLoader(Loader):
         If in cache, return the cached template.
         """
 
+        with self._lock:
+            return self._load(name)
+
+    def _load(self, name):
         if self.reload:
             self._maybe_purge_cache()
 
-- 
2.43.0


From ad173d2c9998ed2b9a58cb665607866b5ee1e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 12/60] fix: raise a TemplateSyntaxError for a stray end tag

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 48851c2..2e8a196 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -280,6 +280,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         self.flush_character_data()
         popped = self.elements.pop()
 
+        if isinstance(popped, dom.Document):
+            self.syntax_error("Unexpected end tag </%s>" % name)
+
         if name.lower() != popped.name.lower():
             self.syntax_error(
                 "Invalid end tag </%s> (expected </%s>)" % (name, popped.name)
-- 
2.43.0


From 24f9b8fec014d40f691513e1f9550fb9a0816759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 13/60] fix: raise TemplateSyntaxErrors for misplaced elements,
 doctypes and empty PIs

---
 tonnikala/syntaxes/docparser.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 2e8a196..97974f4 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -5,7 +5,8 @@ from html import parser as html_parser
 from html.entities import entitydefs as html_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
-from xml.dom import minidom as dom
+from xml.dom import HierarchyRequestErr, minidom as dom
+from xml.parsers.expat import ExpatError
 
 from ..helpers import StringWithLocation
 from ..runtime.exceptions import TemplateSyntaxError
@@ -270,7 +271,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
             el.setAttribute(k, v)
 
-        self.elements[-1].appendChild(el)
+        self.append_node(el)
         self.elements.append(el)
 
         if self_closing or name.lower() in self.void_elements:
@@ -303,7 +304,11 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
-        type_, data = data.split(None, 1)
+        parts = data.split(None, 1)
+        if len(parts) != 2:
+            self.syntax_error("Processing instruction without content")
+
+        type_, data = parts
 
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
@@ -313,6 +318,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
 
+    def append_node(self, node):
+        try:
+            self.elements[-1].appendChild(node)
+        except HierarchyRequestErr as e:
+            self.syntax_error("<%s> is not allowed here: %s" % (node.nodeName, e))
+
     def syntax_error(self, message, lineno=None):
         raise TemplateSyntaxError(
             message,
@@ -353,8 +364,16 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             self.elements[-1].appendChild(node)
 
     def handle_decl(self, decl):
-        dt = dom.parseString("<!%s><html/>" % decl).doctype
-        self.elements[-1].appendChild(dt)
+        self.flush_character_data()
+
+        # HTML doctypes are case-insensitive, but XML ones are not
+        keyword, rest = decl[:7].upper(), decl[7:]
+        try:
+            dt = dom.parseString("<!%s%s><html/>" % (keyword, rest)).doctype
+        except ExpatError as e:
+            self.syntax_error("Invalid doctype <!%s>: %s" % (decl, e))
+
+        self.append_node(dt)
 
     def unknown_decl(self, decl):
         self.syntax_error("Unknown declaration: %s" % decl)
-- 
2.43.0


From 428674b3485d688c6022c9a7a7182eaa27034839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 14/60] fix: report an unterminated string in an expression as
 TemplateSyntaxError

---
 tonnikala/languages/python/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index b02a079..16ad43a 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -45,6 +45,7 @@ def gen_tokens(text, pos):
     io = TokenReadLine(text, pos)
     readline = io.get_readline()
     tokens = generate_tokens(readline)
+    end_pos = pos
 
     try:
         for t_type, content, start, end, line in tokens:
-- 
2.43.0


From 9e520abb532e5fcbb2e30ebcabaaef3d9ab5a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 15/60] fix: report errors found when compiling a template as
 TemplateSyntaxErrors

---
 tonnikala/languages/python/generator.py |  6 ++++++
 tonnikala/loader.py                     | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 90a65a4..0a42f3e 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -6,6 +6,7 @@ from ast import (
     Str, Name, Load, Store, Not, arg, Raise, Return
 )
 from collections.abc import Iterable
+from keyword import iskeyword
 
 from .astalyzer import FreeVarFinder
 from ..base import LanguageNode, ComplexNode, BaseGenerator
@@ -488,6 +489,11 @@ class PyBlockNode(PyComplexNode):
         name = self.name
         blockfunc_name = f"__TK__block__{name}"
         position = getattr(name, "position", (1, 0))
+        if not name.isidentifier() or iskeyword(name):
+            raise TemplateSyntaxError(
+                "Invalid block name %r" % str(name), lineno=position[0]
+            )
+
         body = get_fragment_ast(
             StringWithLocation(
                 "def %s():pass" % blockfunc_name, position[0], position[1] - 4
diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index afbf0d2..5c14c4c 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -170,6 +170,15 @@ class Loader(object):
         self.syntax = syntax
         self.translatable = translatable
 
+    def _compile(self, code, filename):
+        try:
+            return compile(code, filename, "exec")
+        except SyntaxError as e:
+            # some errors are not found before compiling the whole
+            error = exceptions.TemplateSyntaxError(e.msg, lineno=e.lineno)
+
+        raise error
+
     def load_string(self, string, filename="<string>"):
         parser_func = parsers.get(self.syntax)
         if not parser_func:
@@ -181,6 +190,7 @@ class Loader(object):
             tree = parser_func(filename, string, translatable=self.translatable)
             gen = PythonGenerator(tree)
             code = gen.generate_ast()
+            compiled = self._compile(code, filename)
             exc_info = None
         except exceptions.TemplateSyntaxError as e:
             if e.source is None:
@@ -210,7 +220,6 @@ class Loader(object):
         runtime.loader = self
         glob = _new_globals(runtime)
 
-        compiled = compile(code, filename, "exec")
         glob["__TK_template_info__"] = TemplateInfo(filename, gen.lnotab_info())
 
         exec(compiled, glob, glob)
-- 
2.43.0


From ecb9f63ce65be6259d2cb6553084fff78688fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 16/60] fix: raise the ValueError for an invalid parser syntax

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 5c14c4c..c73fd75 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -183,7 +183,8 @@ class Loader(object):
         parser_func = parsers.get(self.syntax)
         if not parser_func:
             raise ValueError(
-                "Invalid parser syntax %s: valid syntaxes: %r" % sorted(parsers.keys())
+                "Invalid parser syntax %s: valid syntaxes: %r"
+                % (self.syntax, sorted(parsers.keys()))
             )
 
         try:
-- 
2.43.0


From 7b90fff428bf105c267f01f5379f737353649605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 17/60] fix: accept expressions with leading whitespace

---
 tonnikala/languages/python/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 0a42f3e..651480a 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -103,6 +103,11 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     if not isinstance(expression, str):
         return expression
 
+    # leading whitespace is not an indentation
+    stripped = expression.lstrip()
+    if len(stripped) != len(expression) and (mode == "eval" or "\n" not in stripped):
+        expression = expression[len(expression) - len(stripped) :]
+
     position = getattr(expression, "position", (1, 0))
     position = position[0] + adjust[0], position[1] + adjust[1]
 
-- 
2.43.0


From 8a669385bf14cb960b160ea0c3d8c1e22404d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 18/60] fix: make literal() available in JavaScript templates

---
 tonnikala/languages/javascript/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 51cf064..0f42dd8 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -74,6 +74,7 @@ except ImportError:
 name_counter = 0
 ALWAYS_BUILTINS = """
     undefined
+    literal
 """.split()
 
 
-- 
2.43.0


From 83371944d2f593c6cbe1868f7101c720a2ad2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 19/60] fix: keep the variables of js:with local to it

---
 tonnikala/languages/javascript/generator.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 0f42dd8..39df2eb 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -499,7 +499,19 @@ class JsWithNode(JsComplexNode):
                     "Only assignment statements allowed in With; not %s" % self.vars
                 )
 
-        body = var_defs + self.generate_child_ast(generator, self)
+        # the assigned variables are local to the scope
+        body = []
+        for i in var_defs:
+            if (
+                isinstance(i.expr, JSAssign)
+                and i.expr.op == "="
+                and isinstance(i.expr.left, Identifier)
+            ):
+                i = AssignNewVariable([i.expr.left], i.expr.right)
+
+            body.append(i)
+
+        body.extend(self.generate_child_ast(generator, self))
         return self.generate_varscope(body)
 
 
-- 
2.43.0


From bd0f3915ccdf25a20b3e284b83926736057265b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 20/60] fix: release the references held by a Buffer

---
 tonnikala/runtime/_buffer.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index f2e4627..db1a910 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -26,6 +26,10 @@ static void
 Buffer_dealloc(Buffer* self)
 {
     Py_XDECREF(self->buffer_list);
+    Py_XDECREF(self->escape_func);
+    Py_XDECREF(self->equals_quot);
+    Py_XDECREF(self->quot);
+    Py_XDECREF(self->space);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -87,6 +91,7 @@ _do_append(Buffer *self, PyObject *args) {
                     return NULL;
                 }
                 if (PyList_Append(self->buffer_list, obj) != 0) {
+                    Py_DECREF(obj);
                     return NULL;
                 }
                 // it is a new reference
@@ -150,19 +155,23 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         if (call == NULL) {
             PyErr_SetString(PyExc_TypeError,
                 "escape function is not callable");
-            return NULL;
+            goto error;
         }
 
         PyObject *escape_args = PyTuple_New(1);
+        if (! escape_args) {
+            goto error;
+        }
+
         Py_INCREF(value);
         PyTuple_SET_ITEM(escape_args, 0, value);
 
         PyObject *result = (*call)(self->escape_func, escape_args, NULL);
+        Py_DECREF(escape_args);
         if (result == NULL) {
             goto error;
         }
 
-        Py_DECREF(escape_args);
         value = result;
     }
 
@@ -185,6 +194,7 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
 
     return rv;
 error:
+    Py_XDECREF(tmp);
     return NULL;
 }
 
-- 
2.43.0


From 97a2a38a7274e6559d97f9d98b6e364ee3d8552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 21/60] fix: report the template lines of errors in processing
 instructions

---
 tonnikala/syntaxes/docparser.py | 5 ++++-
 tonnikala/syntaxes/tonnikala.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 97974f4..1e15fc5 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -308,7 +308,10 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         if len(parts) != 2:
             self.syntax_error("Processing instruction without content")
 
-        type_, data = parts
+        type_, content = parts
+        line, offset = self.getpos()
+        data = StringWithLocation(data, line, offset + 2)
+        data = data[len(data) - len(content) :]
 
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 373e346..7f95539 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -247,7 +247,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-            ir_node = Code(dom_node.nodeValue.strip())
+            source = dom_node.nodeValue
+            start = len(source) - len(source.lstrip())
+            ir_node = Code(source[start : len(source.rstrip())])
             return ir_node
 
         if node_t == Node.DOCUMENT_TYPE_NODE:
-- 
2.43.0


From c043a277e2ba68a8ee66a9cd261ceeb91dfecb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 22/60] fix: report the template line of unknown control
 attributes and misplaced nodes

---
 tonnikala/syntaxes/tonnikala.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 7f95539..50bc620 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -53,7 +53,10 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
-                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+                self.syntax_error(
+                    "Unknown control attribute {}".format(k),
+                    node=v if hasattr(v, "position") else dom_node,
+                )
 
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
@@ -97,7 +100,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
     def syntax_error(self, message, node=None, lineno=None):
         if lineno is None:
-            if node:
+            if node is not None:
                 lineno = getattr(node, "position", (0, 0))[0]
             else:
                 lineno = 0
@@ -229,6 +232,13 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         return topmost
 
     def generate_ir_node(self, dom_node):
+        ir_node = self._generate_ir_node(dom_node)
+        if ir_node.position[0] is None:
+            ir_node.position = getattr(dom_node, "position", (None, None))
+
+        return ir_node
+
+    def _generate_ir_node(self, dom_node):
         node_t = dom_node.nodeType
 
         if node_t == Node.ELEMENT_NODE:
-- 
2.43.0


From b9e1a426999dfdf2781d64e12872b62d6ba3f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 23/60] fix: discard comments within py:extends

---
 tonnikala/ir/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index c92eacf..e998d9f 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -336,6 +336,10 @@ class Extends(ContainerNode):
         if isinstance(child, Comment):
             return
 
+        # the comments of templates are generated as EscapedText
+        if isinstance(child, EscapedText) and child.text.startswith("<!--"):
+            return
+
         # ignore Text nodes with whitespace-only content
         if isinstance(child, Text) and not child.text.strip():
             return
-- 
2.43.0


From b2d8f3f0a31f1655177408ac348102bb664f7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 24/60] fix: render all void elements without an end tag

---
 tonnikala/ir/generate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 258045b..a2e2ce8 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -31,8 +31,11 @@ html5_empty_tags = frozenset(
     meta
     param
     command
+    embed
     keygen
     source
+    track
+    wbr
 """.split()
 )
 
-- 
2.43.0


From 0b6c31e5b780167fe2017cae617ac06eef0acef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 25/60] fix: accept any attribute names without the accelerated
 Buffer

---
 tonnikala/runtime/python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index bf85435..7aad527 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -21,6 +21,8 @@ class _TKPythonBufferImpl(object):
         self.output = do_output
 
         def output_boolean_attr(name, value):
+            # as in the accelerated Buffer, any object can be the name
+            name = str(name)
             t = type(value)
             if t in (bool, NoneType):
                 value and do_output(" " + name + '="' + name + '"')
-- 
2.43.0


From 6c40d30cf5f62ec477ad320f9507c4df40f4d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 26/60] fix: expose the imported defs whose names are already
 in the context

---
 tonnikala/runtime/python.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 7aad527..95b1df0 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -84,10 +84,28 @@ def _is_bound(context, name):
     builtins that every context contains do not count.
     """
 
+    if isinstance(context, ImportContext):
+        return name in context.changed
+
     value = context.get(name, _UNSET)
     return value is not _UNSET and value is not getattr(builtins, name, _UNSET)
 
 
+class ImportContext(dict):
+    """
+    The context for importing a template; keeps track of the names
+    that the imported template binds.
+    """
+
+    def __init__(self, context):
+        super(ImportContext, self).__init__(context)
+        self.changed = set()
+
+    def __setitem__(self, name, value):
+        super(ImportContext, self).__setitem__(name, value)
+        self.changed.add(name)
+
+
 def bind(context, block=False):
     """
     Given the context, returns a decorator wrapper;
@@ -141,15 +159,11 @@ class TonnikalaRuntime(object):
         return self.loader.load(href)
 
     def import_defs(self, context, href):
-        modified_context = context.copy()
+        modified_context = ImportContext(context)
         self.loader.load(href).bind(modified_context)
         container = ImportedTemplate(href)
 
-        for k, v in modified_context.items():
-            # modified
-            if k in context and context[k] is v:
-                continue
-
-            setattr(container, k, v)
+        for k in modified_context.changed:
+            setattr(container, k, modified_context[k])
 
         return container
-- 
2.43.0


From d16a92d8053c3c9aa9be60bc62752a9fafee23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 27/60] fix: allow context variables in the default values of
 top-level defs

---
 tonnikala/languages/python/generator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 651480a..4ace493 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -727,16 +727,21 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
+        # the default values of arguments are evaluated already when the
+        # functions are defined
+        bind_free_variables = ""
+        for i in free_variables:
+            bind_free_variables += '    if "%s" in __TK__context:\n' % i
+            bind_free_variables += '        %s = __TK__context["%s"]\n' % (i, i)
+
+        code += bind_free_variables
         code += "    raise\n"  # a placeholder
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
             code += "    __TK__parent_template.binder_func(__TK__context)\n"
 
-        for i in free_variables:
-            code += '    if "%s" in __TK__context:\n' % i
-            code += '        %s = __TK__context["%s"]\n' % (i, i)
-
+        code += bind_free_variables
         code += "    return __TK__context\n"
 
         tree = ast.parse(code)
-- 
2.43.0


From 046406f44116bf68bcde88d3ac17b6ff0b378a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 28/60] fix: blocks within other constructs on one line were
 rejected

The end of the call of a block was taken from the enclosing node, which
can be before the start of the call; compiling then raised a ValueError.
---
 tonnikala/languages/python/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 4ace493..7acdcbc 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -167,6 +167,7 @@ class PythonNode(LanguageNode):
         for i in code:
             if position is not None:
                 i.lineno, i.col_offset = position
+                i.end_lineno, i.end_col_offset = position
 
             e = Expr(simple_call(func, [i]))
             e.output_args = [i]
-- 
2.43.0


From 164db6d102fda18709d2d7910ebfbc87944883e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 29/60] fix: output the __html__ of a value passed to literal()

The removal of literal() made the template output str(value) instead.
---
 tonnikala/languages/python/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 7acdcbc..be57514 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -614,8 +614,8 @@ def coalesce_outputs(tree):
 
         def check(self, node):
             """
-            Coalesce __TK__output(__TK__escape(literal(x))) into
-            __TK__output(x).
+            Coalesce __TK__output(__TK__escape(literal('x'))) into
+            __TK__output('x').
             """
             if not ast_equals(node.func, NameX("__TK__output")):
                 return
@@ -641,6 +641,10 @@ def coalesce_outputs(tree):
                 if len(arg2.args) != 1:
                     continue
 
+                # other values can have an __html__
+                if not isinstance(arg2.args[0], Str):
+                    continue
+
                 node.args[i] = arg2.args[0]
 
         def visit_Call(self, node):
-- 
2.43.0


From d798bb8aa2022af3a07e5aae6e784552366b6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 30/60] fix: conditions and loops without any contents

Compiling them raised a ValueError.
---
 tonnikala/languages/python/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index be57514..592b22d 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -323,7 +323,8 @@ class PyIfNode(PyComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(test=test, body=self.generate_child_ast(generator, self), orelse=[])
+        body = self.generate_child_ast(generator, self) or [Pass()]
+        node = If(test=test, body=body, orelse=[])
         return [node]
 
 
@@ -429,7 +430,7 @@ class PyForNode(PyComplexNode):
             "exec",
         )
         for_node = body[0]
-        for_node.body = self.generate_child_ast(generator, self)
+        for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From 6dcd97a52369a29187a4c980050420321a8d8065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 31/60] fix: py:with can redefine a variable in terms of its
 outer value

py:with="a = a + 1" raised an UnboundLocalError.
---
 tonnikala/languages/python/astalyzer.py | 30 +++++++++++++++++++++++++
 tonnikala/languages/python/generator.py | 14 ++++++------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 9aa44ca..f289c57 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -101,3 +101,33 @@ class FreeVarFinder(ast.NodeVisitor):
 
     def get_masked_variables(self):
         return self.newly_masked
+
+
+class ImmediateVarFinder(FreeVarFinder):
+    """
+    Finds the variables that are needed already when the code is executed,
+    which excludes the bodies of lambda functions.
+    """
+
+    def visit_Lambda(self, node):
+        self.do_visit_lambda_defaults(node.args)
+
+    def visit_AugAssign(self, node):
+        self.generic_visit(node)
+        if isinstance(node.target, ast.Name):
+            self.vars.add(node.target.id)
+
+
+def get_names_used_before_assignment(statements):
+    """
+    Returns a sorted list of the names that the statements assign, but use
+    before that; the values come from the enclosing scope.
+    """
+
+    used, assigned = set(), set()
+    for statement in statements:
+        finder = ImmediateVarFinder.for_ast(statement)
+        used |= finder.vars - assigned
+        assigned |= finder.masked
+
+    return sorted(used & assigned)
diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 592b22d..91119d2 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -8,7 +8,7 @@ from ast import (
 from collections.abc import Iterable
 from keyword import iskeyword
 
-from .astalyzer import FreeVarFinder
+from .astalyzer import FreeVarFinder, get_names_used_before_assignment
 from ..base import LanguageNode, ComplexNode, BaseGenerator
 from ...helpers import StringWithLocation
 from ...runtime.debug import TemplateSyntaxError
@@ -206,13 +206,12 @@ class PythonNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
+    def generate_varscope(self, body, outer_names=()):
         name = gen_name("variable_scope")
+        arguments = ["__TK__output", "__TK__escape"] + list(outer_names)
         rv = [
-            self.make_function(name, body, arguments=["__TK__output", "__TK__escape"]),
-            Expr(
-                simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
-            ),
+            self.make_function(name, body, arguments=arguments),
+            Expr(simple_call(NameX(name), [NameX(i) for i in arguments])),
         ]
         return rv
 
@@ -532,8 +531,9 @@ class PyWithNode(PyComplexNode):
 
     def generate_ast(self, generator, parent=None):
         var_defs = get_fragment_ast(self.vars, "exec")
+        outer_names = get_names_used_before_assignment(var_defs)
         body = var_defs + self.generate_child_ast(generator, self)
-        return self.generate_varscope(body)
+        return self.generate_varscope(body, outer_names)
 
 
 class PyExtendsNode(PyComplexNode):
-- 
2.43.0


From 1d2193f318ef8a80fa9cf7cf8d7e15b4f5ad209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 32/60] fix: braces and parentheses within f-strings in
 expressions

A piece of text within an f-string can be a token with a sole brace,
which was taken for one of the expression.
---
 tonnikala/languages/python/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 16ad43a..ed1765b 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -72,6 +72,10 @@ def parse_brace_enclosed_expression(text, start_pos, position):
 
     tokens = gen_tokens(text, start_pos + 2)
     for t_type, content, end_pos in tokens:
+        # texts within f-strings can also consist of a sole brace
+        if t_type != token.OP:
+            continue
+
         if content == "}":
             if n_braces <= 0:
                 valid = True
@@ -109,10 +113,10 @@ def parse_unenclosed_expression(text, start_pos, position):
 
         # a braced expression is started, consume it
         for t_type, content, end_pos in gen_tokens(text, pos):
-            if content in braces:
+            if t_type == token.OP and content in braces:
                 pars.append(content)
 
-            elif content in braces.values():
+            elif t_type == token.OP and content in braces.values():
                 last = pars.pop()
                 if braces[last] != content:
                     raise TemplateSyntaxError(
-- 
2.43.0


From c30cfc2294728aa87c3cfdeee66e1205f038d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 33/60] fix: output attributes with the Python Buffer as with
 the accelerated one

---
 tonnikala/runtime/python.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 95b1df0..ea76c41 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -2,8 +2,6 @@ import builtins
 from collections.abc import Mapping
 from markupsafe import escape
 
-NoneType = type(None)
-
 
 class _TKPythonBufferImpl(object):
     def __init__(self):
@@ -22,17 +20,12 @@ class _TKPythonBufferImpl(object):
 
         def output_boolean_attr(name, value):
             # as in the accelerated Buffer, any object can be the name
-            name = str(name)
-            t = type(value)
-            if t in (bool, NoneType):
-                value and do_output(" " + name + '="' + name + '"')
-
-                # skip on false, None
+            # and the value is escaped before anything is output
+            if value is None or value is False:
                 return
 
-            do_output(" " + name + '="')
-            do_output(escape(value))
-            do_output('"')
+            value = name if value is True else escape(value)
+            do_output(" ", name, '="', value, '"')
 
         self.output_boolean_attr = output_boolean_attr
 
-- 
2.43.0


From 75d45729fcd24101288aa71c74ad53b2e89224a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 34/60] fix: extract the singular before the plural

---
 tonnikala/i18n/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 68d1e08..8fb1c79 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -74,7 +74,7 @@ def extract_tonnikala(fileobj, keywords, comment_tags, options):
 
         prefix = ""
         if msg.msgid_plural:
-            msgid = (msg.msgid_plural,) + msgid
+            msgid = msgid + (msg.msgid_plural,)
             prefix = "n"
 
         if msg.msgctxt:
-- 
2.43.0


From f6e3f0d9cbf9e791fba356c61fd70e6edc2a2a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 35/60] fix: raise a TemplateSyntaxError for processing
 instructions in Chameleon templates

---
 tonnikala/syntaxes/chameleon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 2ff7c3b..834d8b9 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -150,7 +150,9 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(dom_node.toxml())
             return ir_node
 
-        raise ValueError("Unhandled node type %d" % node_t)
+        self.syntax_error(
+            "Unhandled node type %d" % node_t, lineno=dom_node.position[0]
+        )
 
 
 def parse(filename, string, translatable=False):
@@ -159,7 +161,9 @@ def parse(filename, string, translatable=False):
 
     parser = TonnikalaHTMLParser(filename, string)
     parsed = parser.parse()
-    generator = ChameleonIRGenerator(parsed)
+    generator = ChameleonIRGenerator(
+        document=parsed, filename=filename, source=string
+    )
     tree = generator.generate_tree()
 
     tree = generator.flatten_element_nodes(tree)
-- 
2.43.0


From d5526b8194b4fbf575fc8943234d5355268b9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 36/60] fix: report the lines of tal:repeat and tal:replace
 errors

---
 tonnikala/syntaxes/chameleon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 834d8b9..becce59 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -60,7 +60,9 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
 
         attr = self.grab_and_remove_control_attr(dom_node, "repeat")
         if attr is not None:
-            ir_node_stack.append(For(attr))
+            for_node = For(attr)
+            for_node.position = getattr(attr, "position", dom_node.position)
+            ir_node_stack.append(for_node)
 
         # TODO: add all control attrs in order
         if not ir_node_stack:
@@ -96,9 +98,13 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             overridden_children = [Expression(content)]
 
         if self.is_control_name(dom_node.tagName, "replace"):
+            if not dom_node.hasAttribute("value"):
+                self.syntax_error(
+                    "No value attribute specified for replace tag",
+                    lineno=dom_node.position[0],
+                )
+
             replace = dom_node.getAttribute("value")
-            if replace is None:
-                raise ValueError("No value attribute specified for replace tag")
         else:
             replace = self.grab_and_remove_control_attr(dom_node, "replace")
 
-- 
2.43.0


From 725d10e1aa1a0c96fb2ea95845d4a1b574b7b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 37/60] fix: report null bytes in code as TemplateSyntaxErrors

---
 tonnikala/languages/python/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 91119d2..56df07d 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -119,7 +119,8 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
             exp = expression + "\n"
         tree = ast.parse(exp, mode=mode)
     except SyntaxError as e:
-        lineno = e.lineno
+        # not all errors have a line number
+        lineno = e.lineno or 1
         lineno += position[0] - 1
         t = TemplateSyntaxError(e.msg, lineno=lineno)
 
-- 
2.43.0


From 2e5d766db71059550b85755a4c128d905e683af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 38/60] fix: reject py:for and py:def that contain more than
 their header

---
 tonnikala/languages/python/generator.py | 40 +++++++++++++++----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 56df07d..46b5738 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -131,6 +131,27 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     return tree.body
 
 
+def get_header_ast(header, position):
+    """
+    Parse the header of a compound statement, such as "for i in x";
+    it must not contain anything more than the header.
+    """
+    lineno, col = position
+    body = get_fragment_ast(
+        StringWithLocation("%s: pass" % header, lineno, col - 4), "exec"
+    )
+    statement = body[0]
+    if (
+        len(body) != 1
+        or len(statement.body) != 1
+        or not isinstance(statement.body[0], Pass)
+        or getattr(statement, "orelse", None)
+    ):
+        raise TemplateSyntaxError("invalid syntax", lineno=lineno)
+
+    return statement
+
+
 def gen_name(typename=None):
     global name_counter
     name_counter += 1
@@ -421,15 +442,10 @@ class PyForNode(PyComplexNode):
         self.target_and_expression = target_and_expression
 
     def generate_contents(self, generator, parent):
-        lineno, col = getattr(self.target_and_expression, "position", (1, 0))
-
-        body = get_fragment_ast(
-            StringWithLocation(
-                "for %s: pass" % self.target_and_expression, lineno, col - 4
-            ),
-            "exec",
+        for_node = get_header_ast(
+            "for %s" % self.target_and_expression,
+            getattr(self.target_and_expression, "position", (1, 0)),
         )
-        for_node = body[0]
         for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
@@ -451,13 +467,7 @@ class PyDefineNode(PyComplexNode):
         self.funcspec = funcspec
 
     def generate_ast(self, generator, parent):
-        body = get_fragment_ast(
-            StringWithLocation(
-                "def %s: pass" % self.funcspec, self.position[0], self.position[1] - 4
-            ),
-            "exec",
-        )
-        def_node = body[0]
+        def_node = get_header_ast("def %s" % self.funcspec, self.position)
         name = self.funcspec.partition("(")[0]
         def_node.body = self.make_buffer_frame(self.generate_child_ast(generator, self))
 
-- 
2.43.0


From 802677c71a479e8ae61104fa5b9bcb6b80983f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 39/60] fix: negate the whole expression of js:unless and
 js:strip

---
 tonnikala/languages/javascript/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 39df2eb..5bc1eb9 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -354,6 +354,8 @@ class JsIfNode(JsComplexNode):
 
 def JsUnlessNode(self, expression):
     expression = get_fragment_ast(expression)
+    # an operator within the expression can bind less tightly
+    expression._parens = True
     expression = UnaryOp(op="!", value=expression)
     return JsIfNode(expression)
 
-- 
2.43.0


From 70bb8a3f82d659343ec0e201636b1e8fdf2d4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 40/60] fix: js:with can redefine a variable in terms of its
 outer value

---
 tonnikala/languages/javascript/generator.py | 52 +++++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 5bc1eb9..7376697 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -231,10 +231,23 @@ class JavascriptNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
-        name = gen_name()
-        rv = [self.make_function(name, body), Expr(SimpleCall(NameX(name), []))]
-        return rv
+    def generate_varscope(self, body, names=()):
+        """
+        Execute the body in a scope of its own. The names are local to
+        the scope, with the values that they have outside as initial values.
+        """
+        func_name = gen_name()
+        values = [NameX(name) for name in names]
+        for value in values:
+            # these are references to variables
+            value._mangle_candidate = True
+
+        return [
+            self.make_function(
+                func_name, body, arguments=[NameX(name) for name in names]
+            ),
+            Expr(SimpleCall(NameX(func_name), values)),
+        ]
 
 
 class JsOutputNode(JavascriptNode):
@@ -488,6 +501,20 @@ class JsDefineNode(JsComplexNode):
         return [def_node]
 
 
+def get_assigned_names(expr):
+    if isinstance(expr, ast.Comma):
+        return get_assigned_names(expr.left) + get_assigned_names(expr.right)
+
+    if (
+        isinstance(expr, JSAssign)
+        and expr.op == "="
+        and isinstance(expr.left, Identifier)
+    ):
+        return [expr.left.value]
+
+    return []
+
+
 class JsWithNode(JsComplexNode):
     def __init__(self, vars):
         super(JsWithNode, self).__init__()
@@ -502,19 +529,14 @@ class JsWithNode(JsComplexNode):
                 )
 
         # the assigned variables are local to the scope
-        body = []
+        names = []
         for i in var_defs:
-            if (
-                isinstance(i.expr, JSAssign)
-                and i.expr.op == "="
-                and isinstance(i.expr.left, Identifier)
-            ):
-                i = AssignNewVariable([i.expr.left], i.expr.right)
-
-            body.append(i)
+            for name in get_assigned_names(i.expr):
+                if name not in names:
+                    names.append(name)
 
-        body.extend(self.generate_child_ast(generator, self))
-        return self.generate_varscope(body)
+        body = var_defs + self.generate_child_ast(generator, self)
+        return self.generate_varscope(body, names)
 
 
 class JsComplexExprNode(JsComplexNode):
-- 
2.43.0


From d4ec1880a19bff64338616be50e0709a3150cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 41/60] fix: do not bind the names of JavaScript templates in
 the object given as the context

---
 tonnikala/languages/javascript/generator.py |  7 +++++--
 tonnikala/runtime/javascript.js             | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 7376697..2e5fa09 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -755,6 +755,9 @@ class JsRootNode(JsComplexNode):
         code += "    return function __TK__binder (__TK__context) {\n"
         code += "        var %s;\n" % ",\n            ".join(free_variables)
 
+        # the names are bound in a copy of the values given by the user
+        code += "        __TK__context = __TK__.newContext(__TK__context);\n"
+
         if extended:
             # an extended template does not have a __main__ (it is inherited)
             code += "        __TK__parent_template(__TK__context)\n"
@@ -789,8 +792,8 @@ class JsRootNode(JsComplexNode):
 
         # inject the other top level funcs in the binder
         binder = locator.binder
-        get_body(binder)[1:1] = toplevel_funcs
-        get_body(binder)[1:1] = generator.imports
+        get_body(binder)[2:2] = toplevel_funcs
+        get_body(binder)[2:2] = generator.imports
 
         coalesce_outputs(tree)
         return tree.to_ecma()
diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index c3b6026..dc325de 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -17,6 +17,25 @@ define([], function () {
         }
     };
 
+    function TemplateContext(values) {
+        var name;
+
+        for (name in values) {
+            if (Object.prototype.hasOwnProperty.call(values, name)) {
+                this[name] = values[name];
+            }
+        }
+    }
+
+    function newContext(values) {
+        // an extended template shares the context of the extending one
+        if (values instanceof TemplateContext) {
+            return values;
+        }
+
+        return new TemplateContext(values);
+    }
+
     function BoundTemplate(templateContext) {
         this.templateContext = templateContext;
     }
@@ -192,6 +211,8 @@ define([], function () {
 
         literal: function (val) { return new Markup(String(val)); },
 
+        newContext: newContext,
+
         addToContext: addToContext,
 
         bindFromContext: bindFromContext,
-- 
2.43.0


From 89261a3a13e8173fba699f7e40ba53df8da72809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 42/60] fix: output the value of a comma expression in
 JavaScript templates

---
 tonnikala/languages/javascript/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 2e5fa09..1410a64 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -169,6 +169,10 @@ def get_fragment_ast(expression, mode="eval"):
         return expression
 
     tree = parse(expression, mode=mode)
+    if isinstance(tree, ast.Comma):
+        # the expression can become an argument
+        tree._parens = True
+
     return tree
 
 
-- 
2.43.0


From 8183a192b1469461e4679786dd1d2df9e64ac611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 43/60] fix: JavaScript templates without any names in them can
 be compiled

---
 tonnikala/languages/javascript/generator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 1410a64..ed29523 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -757,7 +757,9 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
-        code += "        var %s;\n" % ",\n            ".join(free_variables)
+        # there need not be any variables in a template that extends another
+        if free_variables:
+            code += "        var %s;\n" % ",\n            ".join(free_variables)
 
         # the names are bound in a copy of the values given by the user
         code += "        __TK__context = __TK__.newContext(__TK__context);\n"
@@ -796,8 +798,9 @@ class JsRootNode(JsComplexNode):
 
         # inject the other top level funcs in the binder
         binder = locator.binder
-        get_body(binder)[2:2] = toplevel_funcs
-        get_body(binder)[2:2] = generator.imports
+        # after the variables and the context are in place
+        position = 2 if free_variables else 1
+        get_body(binder)[position:position] = generator.imports + toplevel_funcs
 
         coalesce_outputs(tree)
         return tree.to_ecma()
-- 
2.43.0


From 8d5abc2d98de79e74e719cfc2eb64d8bbbe7eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 44/60] fix: the code of JavaScript templates does not depend
 on the hash seed

---
 tonnikala/languages/javascript/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index ed29523..ad913a1 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -731,6 +731,9 @@ class JsRootNode(JsComplexNode):
             if i.startswith("__TK__") or i in ALWAYS_BUILTINS:
                 free_variables.discard(i)
 
+        # always in the same order
+        free_variables = sorted(free_variables)
+
         # discard the names of toplevel funcs from free variables
         # free_variables.difference_update(generator.top_level_names)
 
-- 
2.43.0


From b7d8f2d77b360082d6107ff414293a89cba0062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 45/60] fix: character references can also have an uppercase X

---
 tonnikala/syntaxes/docparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 1e15fc5..62d007d 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -347,7 +347,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_charref(self, code):
         # Encoding?
         try:
-            if code.startswith("x"):
+            if code.startswith(("x", "X")):
                 cp = int(code[1:], 16)
             else:
                 cp = int(code, 10)
-- 
2.43.0


From 22c654f9620e341bcd7aefa8cf3eb95f1bc2d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 46/60] fix: the entity references of HTML 5 are known in text
 as in attributes

---
 tonnikala/syntaxes/docparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 62d007d..a57373c 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -2,7 +2,7 @@
 
 import sys
 from html import parser as html_parser
-from html.entities import entitydefs as html_entity_defs
+from html.entities import html5 as html_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
 from xml.dom import HierarchyRequestErr, minidom as dom
@@ -88,7 +88,7 @@ class TonnikalaXMLParser(sax.ContentHandler):
 
     def skippedEntity(self, name):
         # Encoding?
-        content = html_entity_defs.get(name)
+        content = html_entity_defs.get(name + ";")
         if not content:
             raise RuntimeError("Unknown HTML entity &%s;" % name)
 
@@ -338,7 +338,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_entityref(self, name):
         # Encoding?
         try:
-            content = str(html_entity_defs[name])
+            content = str(html_entity_defs[name + ";"])
         except KeyError:
             self.syntax_error("Unknown HTML entity &%s;" % name)
 
-- 
2.43.0


From 3d10e4c50815ef72965581c403687757f81f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 47/60] fix: assignment expressions within py:with raised
 NameError

---
 tonnikala/languages/python/astalyzer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index f289c57..3308db5 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -109,6 +109,14 @@ class ImmediateVarFinder(FreeVarFinder):
     which excludes the bodies of lambda functions.
     """
 
+    def __init__(self, masked=()):
+        super(ImmediateVarFinder, self).__init__(masked)
+        self.assignment_expressions = set()
+
+    def visit_NamedExpr(self, node):
+        self.generic_visit(node)
+        self.assignment_expressions.add(node.target.id)
+
     def visit_Lambda(self, node):
         self.do_visit_lambda_defaults(node.args)
 
@@ -127,7 +135,7 @@ def get_names_used_before_assignment(statements):
     used, assigned = set(), set()
     for statement in statements:
         finder = ImmediateVarFinder.for_ast(statement)
-        used |= finder.vars - assigned
+        used |= finder.vars - assigned - finder.assignment_expressions
         assigned |= finder.masked
 
     return sorted(used & assigned)
-- 
2.43.0


From 299a0f0ce2ec8c3dbd80c27e0b5d0f79563a32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 48/60] fix: names in class bodies, decorators and annotations
 were not looked up in the context, or masked it elsewhere

---
 tonnikala/languages/python/astalyzer.py | 27 ++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 3308db5..f88ffb4 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -47,6 +47,29 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+        # these are evaluated outside the function
+        for item in node.decorator_list + [node.returns]:
+            if item is not None:
+                self.visit(item)
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+
+    def visit_ClassDef(self, node):
+        """
+        The names that are assigned in the body of a class are local to it,
+        and are not visible in its methods either.
+        """
+
+        self.generated.add(node.name)
+        for item in node.decorator_list + node.bases + node.keywords:
+            self.visit(item)
+
+        subscoper = FreeVarFinder()
+        for item in node.body:
+            subscoper.visit(item)
+
+        self.vars |= subscoper.vars
+
     def visit_comprehension_scope(self, node):
         """
         The targets of a comprehension are local to it, and do not mask
@@ -74,10 +97,8 @@ class FreeVarFinder(ast.NodeVisitor):
         pass
 
     def do_visit_lambda_defaults(self, node):
+        # the arguments themselves can have annotations
         for field, value in ast.iter_fields(node):
-            if field == "args":
-                continue
-
             if isinstance(value, list):
                 for item in value:
                     if isinstance(item, ast.AST):
-- 
2.43.0


From 3a924ad2fffadf37edaefda019a2393cd5e23f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 49/60] fix: a too long character reference in an attribute
 raised ValueError

---
 tonnikala/syntaxes/docparser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index a57373c..78a3079 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -178,8 +178,13 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         self.doc = dom.Document()
         self.elements.append(self.doc)
 
-        self.feed(self.source)
-        self.close()
+        try:
+            self.feed(self.source)
+            self.close()
+        except ValueError as e:
+            # html.parser does not accept every character reference
+            self.syntax_error(str(e))
+
         self.flush_character_data()
         return self.doc
 
-- 
2.43.0


From c32ac49948a42c7da943bd52bfc38bfc07528ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 50/60] fix: a value or def named hasOwnProperty broke
 JavaScript templates

---
 tonnikala/runtime/javascript.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index dc325de..c8083e0 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -1,7 +1,8 @@
 define([], function () {
     'use strict';
     var globals = typeof window == 'undefined' ? global : window,
-        map = Array.prototype.map;
+        map = Array.prototype.map,
+        hasOwn = Object.prototype.hasOwnProperty;
 
     function Markup(s) {
         this.s = s;
@@ -21,7 +22,7 @@ define([], function () {
         var name;
 
         for (name in values) {
-            if (Object.prototype.hasOwnProperty.call(values, name)) {
+            if (hasOwn.call(values, name)) {
                 this[name] = values[name];
             }
         }
@@ -173,13 +174,13 @@ define([], function () {
     }
 
     function addToContext(ctx, name, value) {
-        if (!ctx.hasOwnProperty(name)) {
+        if (!hasOwn.call(ctx, name)) {
             ctx[name] = value;
         }
     }
 
     function bindFromContext(ctx, name) {
-        if (ctx.hasOwnProperty(name)) {
+        if (hasOwn.call(ctx, name)) {
             return ctx[name];
         }
 
-- 
2.43.0


From 364021e1adc80d7a06983f8a3cc8d3c1169e2c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 51/60] fix: a template directory replaced by something else
 made every load fail

---
 tonnikala/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index c73fd75..ecacf79 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -288,7 +288,7 @@ class FileLoader(Loader):
         for name, tmpl in list(self.cache.items()):
             try:
                 mtime = os.stat(tmpl.path).st_mtime
-            except FileNotFoundError:
+            except OSError:
                 self.cache.pop(name)
                 self._deleted_paths.add(tmpl.path)
                 continue
-- 
2.43.0


From 94aa3b6dfd7300cce14e84560a44293943072169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:03 +0000
Subject: [PATCH 52/60] fix: imported templates had an attribute that they do
 not define

---
 tonnikala/runtime/python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index ea76c41..a1e9d94 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -128,14 +128,14 @@ def bind(context, block=False):
 
 class ImportedTemplate(object):
     def __init__(self, name):
-        self._name = name
+        self.__name = name
 
     def __repr__(self):  # pragma: no cover
-        return "<ImportedTemplate '%r'>" % self._name
+        return "<ImportedTemplate '%r'>" % self.__name
 
     def __getattr__(self, item):
         raise AttributeError(
-            f"Imported template {self._name!r} " f"has no attribute {item!r}"
+            f"Imported template {self.__name!r} " f"has no attribute {item!r}"
         )
 
 
-- 
2.43.0


From d9760f224bbacb00951519f1a369cfd857767314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 53/60] fix: errors of imports and of extending had wrong lines
 in tracebacks

---
 tonnikala/languages/python/generator.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 46b5738..a1ee9a8 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -99,6 +99,18 @@ def adjust_locations(ast_node, first_lineno, first_offset):
     _fix(ast_node)
 
 
+def set_locations(ast_node, position):
+    """
+    Sets the locations of all the ast nodes to the given position
+    """
+
+    for node in ast.walk(ast_node):
+        for prefix in ["", "end_"]:
+            if prefix + "lineno" in node._attributes:
+                setattr(node, prefix + "lineno", position[0])
+                setattr(node, prefix + "col_offset", position[1])
+
+
 def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     if not isinstance(expression, str):
         return expression
@@ -358,6 +370,7 @@ def PyUnlessNode(self, expression):
 class PyImportNode(PythonNode):
     def __init__(self, href, alias):
         super(PyImportNode, self).__init__()
+        self.position = getattr(href, "position", (1, 0))
         self.href = str(href)
         self.alias = str(alias)
 
@@ -373,6 +386,7 @@ class PyImportNode(PythonNode):
                 args=[NameX("__TK__original_context"), Str(s=self.href)],
             ),
         )
+        set_locations(node, self.position)
 
         if parent.is_top_level:
             generator.add_top_level_import(str(self.alias), node)
@@ -678,6 +692,11 @@ def remove_locations(node):
         if "col_offset" in node._attributes and hasattr(node, "col_offset"):
             del node.col_offset
 
+        # otherwise a call spans lines, and its line is that of its end
+        for name in ["end_lineno", "end_col_offset"]:
+            if name in node._attributes and hasattr(node, name):
+                delattr(node, name)
+
         for child in iter_child_nodes(node):
             fix(child)
 
@@ -764,6 +783,10 @@ class PyRootNode(PyComplexNode):
         tree = ast.parse(code)
         remove_locations(tree)
 
+        if extended:
+            # loading the parent and binding it can fail
+            set_locations(tree, getattr(extended, "position", (1, 0)))
+
         class LocatorAndTransformer(ast.NodeTransformer):
             binder = None
 
-- 
2.43.0


From a892621887064ea0aba42c20dd1e73931ff35601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 54/60] fix: attributes that share a local name no longer
 replace each other

---
 tonnikala/syntaxes/docparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 78a3079..1d1517a 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -274,7 +274,14 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 l, o = attr_pos[k]
                 v = StringWithLocation(v, l, o)
 
-            el.setAttribute(k, v)
+            attr = el.getAttributeNode(k)
+            if attr is None:
+                # without namespaces the local name is the whole name;
+                # otherwise "xml:lang" would replace "lang"
+                attr = dom.Attr(k, localName=k)
+                el.setAttributeNode(attr)
+
+            attr.value = v
 
         self.append_node(el)
         self.elements.append(el)
-- 
2.43.0


From 3450c8d3dc450bf76c76f9680c988818478a2260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 55/60] fix: <plaintext> does not swallow the rest of the
 template

---
 tonnikala/syntaxes/docparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 1d1517a..bca3366 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -258,6 +258,11 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         return attr_pos
 
+    def set_cdata_mode(self, elem, **kw):
+        # not for <plaintext>, which could not even have an end tag
+        if elem in self.CDATA_CONTENT_ELEMENTS:
+            super(TonnikalaHTMLParser, self).set_cdata_mode(elem, **kw)
+
     def getlineno(self):
         return self.getpos()[0]
 
-- 
2.43.0


From 125077d31e9e4b639d7c559c3ac3234b324ce798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:43 +0000
Subject: [PATCH 56/60] fix: treat control attributes without a value as empty
 ones

They were ignored on elements, and those of control elements made loading
raise other exceptions than TemplateSyntaxError.
---
 tonnikala/ir/generate.py        | 10 ++++++++++
 tonnikala/syntaxes/chameleon.py |  2 +-
 tonnikala/syntaxes/tonnikala.py |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index a2e2ce8..46c8e18 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -14,6 +14,7 @@ from .nodes import (
     EmptyAttrVal,
 )
 
+from ..helpers import StringWithLocation
 from ..runtime.exceptions import TemplateSyntaxError
 
 html5_empty_tags = frozenset(
@@ -161,6 +162,15 @@ class BaseDOMIRGenerator(BaseIRGenerator):
             yield current
             current = current.nextSibling
 
+    # noinspection PyMethodMayBeStatic
+    def get_control_value(self, dom_node, name):
+        value = dom_node.getAttribute(name)
+        if value is None:
+            # an attribute without a value is an empty one
+            value = StringWithLocation("", *dom_node.position)
+
+        return value
+
     def generate_attributes(self, ir_node, attrs=[], dynamic_attrs=None):
         if dynamic_attrs:
             ir_node.set_dynamic_attrs(dynamic_attrs)
diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index becce59..473e07d 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -37,7 +37,7 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
     def grab_and_remove_control_attr(self, dom_node, name):
         name = "tal:" + name
         if dom_node.hasAttribute(name):
-            value = dom_node.getAttribute(name)
+            value = self.get_control_value(dom_node, name)
             dom_node.removeAttribute(name)
             return value
 
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 50bc620..c6d25e3 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -85,7 +85,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
     def grab_and_remove_control_attr(self, dom_node, name):
         name = self.control_prefix + name
         if dom_node.hasAttribute(name):
-            value = dom_node.getAttribute(name)
+            value = self.get_control_value(dom_node, name)
             dom_node.removeAttribute(name)
             return value
 
@@ -115,7 +115,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
                 ),
                 node=dom_node,
             )
-        return dom_node.getAttribute(name)
+        return self.get_control_value(dom_node, name)
 
     def create_control_nodes(self, dom_node):
         name = dom_node.tagName
-- 
2.43.0


From f64e1b0fd45d97e972a8ff4a1d1b7bdc3fdc5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 57/60] fix: reject imports with contents instead of an
 AttributeError

---
 tonnikala/ir/nodes.py | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index e998d9f..3306a07 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -100,6 +100,17 @@ class EscapedText(Text):
         return self.text
 
 
+def is_comment_or_whitespace(node):
+    if isinstance(node, Comment):
+        return True
+
+    # the comments of templates are generated as EscapedText
+    if isinstance(node, EscapedText) and node.text.startswith("<!--"):
+        return True
+
+    return isinstance(node, Text) and not node.text.strip()
+
+
 class Expression(BaseNode):
     is_cdata = False
 
@@ -263,7 +274,7 @@ class Define(ContainerNode):
         return ", ".join([self.funcspec, str(self.children)])
 
 
-class Import(BaseNode):
+class Import(ContainerNode):
     def __init__(self, href, alias):
         super(Import, self).__init__()
 
@@ -273,6 +284,24 @@ class Import(BaseNode):
     def __str__(self):  # pragma: no cover
         return ", ".join([self.href, self.alias])
 
+    def add_child(self, child):
+        """
+        Add a child to the tree. Import discards all comments
+        and whitespace Text.
+        """
+
+        if not is_comment_or_whitespace(child):
+            super(Import, self).add_child(child)
+
+    def validate(self, validator):
+        for child in self.children:
+            validator.syntax_error(
+                "No contents or other control attributes allowed for an import",
+                node=child,
+            )
+
+        super(Import, self).validate(validator)
+
 
 class If(ContainerNode):
     def __init__(self, expression):
@@ -333,18 +362,8 @@ class Extends(ContainerNode):
         other nodes, raise a syntax error.
         """
 
-        if isinstance(child, Comment):
-            return
-
-        # the comments of templates are generated as EscapedText
-        if isinstance(child, EscapedText) and child.text.startswith("<!--"):
-            return
-
-        # ignore Text nodes with whitespace-only content
-        if isinstance(child, Text) and not child.text.strip():
-            return
-
-        super(Extends, self).add_child(child)
+        if not is_comment_or_whitespace(child):
+            super(Extends, self).add_child(child)
 
     def validate(self, validator):
         for child in self.children:
-- 
2.43.0


From 960d54e3aefe4f5b1198f8a34c0ac3275969ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 58/60] fix: reject import aliases that are not names

---
 tonnikala/languages/python/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index a1ee9a8..2f1ad30 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -375,6 +375,11 @@ class PyImportNode(PythonNode):
         self.alias = str(alias)
 
     def generate_ast(self, generator, parent):
+        if not self.alias.isidentifier() or iskeyword(self.alias):
+            raise TemplateSyntaxError(
+                "Invalid import alias %r" % self.alias, lineno=self.position[0]
+            )
+
         node = Assign(
             targets=[NameX(str(self.alias), store=True)],
             value=simple_call(
-- 
2.43.0


From 01c71f2cdd49012741249e0c44fe0b142459dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 59/60] fix: reject unknown control attributes also where no
 element is generated

---
 tonnikala/syntaxes/tonnikala.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index c6d25e3..7affe92 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -45,11 +45,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
     def get_guard_expression(self, dom_node):
         return self.grab_and_remove_control_attr(dom_node, "strip")
 
-    def generate_attributes_for_node(self, dom_node, ir_node):
-        attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
-        if dom_node.hasAttribute(self.xmlns):
-            dom_node.removeAttribute(self.xmlns)
-
+    def reject_unknown_control_attributes(self, dom_node):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
@@ -58,6 +54,13 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
                     node=v if hasattr(v, "position") else dom_node,
                 )
 
+    def generate_attributes_for_node(self, dom_node, ir_node):
+        attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
+        if dom_node.hasAttribute(self.xmlns):
+            dom_node.removeAttribute(self.xmlns)
+
+        self.reject_unknown_control_attributes(dom_node)
+
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
             if v is not None:
@@ -207,6 +210,10 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         if generate_element:
             el_ir_node = Element(dom_node.tagName, guard_expression=guard_expression)
             self.generate_attributes_for_node(dom_node, el_ir_node)
+        else:
+            # there are no tags for the attributes to appear in
+            self.grab_and_remove_control_attr(dom_node, "attrs")
+            self.reject_unknown_control_attributes(dom_node)
 
         if not topmost:
             topmost = el_ir_node
-- 
2.43.0


From 2ca4b60f244a372845222f89c6e679e81ebea642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:52 +0000
Subject: [PATCH 60/60] fix: report py:content and py:replace within extends
 for their line

---
 tonnikala/syntaxes/tonnikala.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 7affe92..38ad746 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -194,6 +194,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         content = self.grab_and_remove_control_attr(dom_node, "content")
         if content:
             overridden_children = [Expression(content)]
+            overridden_children[0].position = getattr(
+                content, "position", dom_node.position
+            )
 
         if self.is_control_name(dom_node.tagName, "replace"):
             replace = self.grab_mandatory_attribute(dom_node, "value")
@@ -204,6 +207,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         el_ir_node = None
         if replace is not None:
             el_ir_node = Expression(replace)
+            el_ir_node.position = getattr(replace, "position", dom_node.position)
             add_children = False
             generate_element = False
 
-- 
2.43.0

