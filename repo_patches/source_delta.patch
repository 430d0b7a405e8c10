From aeb7794b23449424252d768d58bcbe1c26a5d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 01/46] fix: embed a copy of DOM nodes, so that repeated
 insertions of a body do not alter each other

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d4a1419..b198e0f 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -515,7 +515,7 @@ class NODES(object):
             
         def translate(self, state):
             body = self.expr.evaluate(state)
-            body = self._as_sequence(body)
+            body = self._as_sequence(body).copy()               # the same nodes can be embedded in many places
             body.set_indent(state.indentation)                  # set indentation of the fragment to be inserted
             return body
         
-- 
2.43.0


From bc17cd51cacf868352afbb1037f1587f6fbc041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 02/46] fix: make the power operator right-associative

---
 src/hypertag/core/ast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index b198e0f..f51d775 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1577,7 +1577,15 @@ class NODES(object):
             return head, tail
     
     class xpow_expr(chain_expression):
-        """chain of power operators: ** """
+        """chain of power operators: **, right-associative like in Python: x ** y ** z is x ** (y ** z)"""
+        def evaluate(self, state):
+            values = [expr.evaluate(state) for expr in self.children[0::2]]
+            ops    = self.children[1::2]
+            res    = values.pop()
+            while values:
+                res = ops[len(values)-1].apply(values.pop(), res)
+            return res
+        
     class xterm(chain_expression):
         """chain of multiplicative operators: * / // %"""
     class xshift_expr(chain_expression):
-- 
2.43.0


From 2cbec61bdf721533fac1fddd1be60d0e9b890816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 03/46] fix: evaluate comparison chains like Python does

---
 src/hypertag/core/ast.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index f51d775..1af93ed 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1655,8 +1655,17 @@ class NODES(object):
             
             
     class xcomparison(chain_expression):
-        "chain of comparison operators: < > == >= <= != in is, not in, is not"
+        "chain of comparison operators: < > == >= <= != in is, not in, is not; like in Python, x < y < z means: (x < y) and (y < z)"
         raise_null = False
+
+        def evaluate(self, state):
+            left = self.children[0].evaluate(state)
+            for op, expr in zip(self.children[1::2], self.children[2::2]):
+                right = expr.evaluate(state)
+                res   = op.apply(left, right)
+                if not res: break
+                left  = right
+            return res
         
     class xnot_test(expression):
         """not not not ..."""
-- 
2.43.0


From e6aa5594f4156b013887ecb748f751c7670e4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 04/46] fix: names that start with True, False or None are
 identifiers

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 06f2e19..3561579 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -266,8 +266,8 @@ literal          =  number / string / boolean / none
 number_signed    =  ~"[+-]?" number
 number           =  ~"((\.\d+)|(\d+(\.\d*)?))([eE][+-]?\d+)?"      # the leading +- is added during expression construction (<neg>)
 #string           =  ~"'[^']*'" / ~'"[^"]*"'         # '...' or "..." string; no escaping of ' and " inside!
-boolean          =  'True' / 'False'
-none             =  'None'
+boolean          =  ~"(True|False)\\b"                          # \\b: a name that only starts with True/False/None is an identifier
+none             =  ~"None\\b"
 
 string           =  string_format / string_raw
 string_raw       =  ~"r'[^']*'" / ~'r"[^"]*"'         # '...' or "..." string; must not contain ' or " inside (no escaping available)
-- 
2.43.0


From d5a7af2722cbefc6b5e7b6ee6cb62ba26fc847b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 05/46] fix: expand hypertags on a copy of the state, so that
 local variables do not leak between expansions, renders and threads

---
 src/hypertag/core/ast.py     | 7 ++-----
 src/hypertag/core/structs.py | 1 +
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 1af93ed..d222670 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -110,11 +110,7 @@ class ImportedHypertag(Hypertag):
         
     def expand(self, body, attrs, kwattrs, state, caller):
         
-        # module_state = State(self.module_state.values)          # module's terminal state is copied anew on every tag expansion
-
-        # module's terminal state is NOT copied on subsequent expansions, which means that
-        # stored values of local symbols may change after the call below;
-        # TODO: make sure that values of local variables are cleared after expansion of an <xblock_def> block
+        # module's terminal state is copied inside expand(), so its stored values do NOT change after the call below
         return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
 
 class EmbeddedHypertag:
@@ -617,6 +613,7 @@ class NODES(object):
             Translate the formal self.body in a given `state`, insert the actual `body` wherever necessary,
             and return as a DOM (not a string!) for possible further manipulation in other hypertags.
             """
+            state = state.copy()            # local variables must not survive the expansion
             dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
             output = self.body.translate(state)
             output.set_indent(state.indentation)
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 414101e..3838907 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -380,6 +380,7 @@ class State:
     def copy(self):
         dup = State()
         dup.values = self.values.copy()
+        dup.indentation = self.indentation
         return dup
         
     def update(self, values):
-- 
2.43.0


From b47c6500fc1a3fe5b83db59f7bbc8b852d03456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 06/46] fix: derive the layout of a text block from the script,
 not from embedded values; call hypertags in text with proper indentation

---
 src/hypertag/core/ast.py | 68 +++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d222670..8ccc1cb 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 
 import sys, re, codecs, operator
 from collections import OrderedDict
+from os.path import commonprefix
 from six import reraise, text_type
 
 from parsimonious.grammar import Grammar as Parsimonious
@@ -20,7 +21,7 @@ from hypertag.core.errors import SyntaxErrorEx, ValueErrorEx, TypeErrorEx, False
 from hypertag.core.grammar import grammar, MARK_TAG, MARK_VAR, TAG, VAR, IS_TAG
 from hypertag.core.xml_chars import XML_StartChar, XML_Char, XML_EndChar
 from hypertag.core.structs import Context, State, Slot, ValueSlot
-from hypertag.core.dom import del_indent, get_indent, DOM
+from hypertag.core.dom import DOM
 from hypertag.core.tag import Tag, null
 
 DEBUG = False
@@ -464,34 +465,45 @@ class NODES(object):
             
         def render(self, state):
 
-            # temporarily reset indentation to zero for rendering of children; this will be reverted later on
-            indent = state.indentation
-            state.indentation = ''
-            
-            lead = self.column          # horizontal position where the block's first line begins in the script
-            try:
-                body = self._render_all(self.children, state)
-                # if body.startswith('\n'):
-                #     output = body[1:]                   # no headline? drop the leading newline
-                # else:
-                output = ' ' * lead + body          # in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
-            finally:
-                state.indentation = indent
-
-            sub_indent = get_indent(output)
-            sub_indent = sub_indent[:lead+1]        # max 1 initial space/tab after the lead is dropped; remaining sub-indentation is preserved in `output`
-            output = del_indent(output, sub_indent)
-            # print('sub_indent: "{sub_indent}"')
+            # layout of the block is determined by the script alone: indentation of each line is kept separately from its text,
+            # because the values embedded in a line may contain whitespace and newlines by themselves
+            lead   = ' ' * self.column  # horizontal position where the block's first line begins in the script
+            lines  = []                 # triples of: separator that preceeds the line, its indentation, its text
+            margin = indent = ''
+            
+            for child in self.children:
+                if isinstance(child, NODES.indent):
+                    indent += child.whitechar
+                elif isinstance(child, NODES.dedent):
+                    indent = indent[:-1]
+                elif isinstance(child, NODES.line):
+                    text = child.render_inline(state)
+                    if not margin:      # in the headline, spaces replace leading tag(s) and a marker character /|!
+                        source = child.text()
+                        blank  = source[: len(source) - len(source.lstrip(' \t'))]
+                        indent_line = lead
+                        if text.startswith(blank):
+                            indent_line += blank
+                            text = text[len(blank):]
+                    else:
+                        indent_line = indent
+                    lines.append((margin, indent_line, text))
+                    margin = ''
+                else:
+                    margin += child.render(state)
 
-            # if tail lines have shorter indent than the headline, drop all the lead + 1 space (gap)
-            if len(sub_indent) < lead:
-                drop = lead - len(sub_indent)
-                if output[drop:drop+1] == ' ': drop += 1
-                output = output[drop:]
-                
-            # # drop the 1st line (headline) if empty
-            # if output.split('\n', 1)[0].strip() == '':
-            #     output =
+            # max 1 initial space/tab after the lead is dropped; remaining sub-indentation is preserved
+            common = commonprefix([indent_line for _, indent_line, _ in lines]) [:len(lead)+1]
+            output = ''
+            
+            for margin, indent_line, text in lines:
+                # if tail lines have shorter indent than the headline, drop all the lead + 1 space (gap)
+                if not margin and len(common) < len(lead):
+                    indent_line = indent_line[len(lead):]
+                    if indent_line[:1] in (' ', '\t'): indent_line = indent_line[1:]
+                else:
+                    indent_line = indent_line[len(common):]
+                output += margin + indent_line + text
             
             return output
 
-- 
2.43.0


From 1697740fd5117830a2f02e6d75ca1f8f9f13ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:32 +0000
Subject: [PATCH 07/46] fix: only spaces and tabs make indentation, other
 whitespace characters are preserved as text

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 8ccc1cb..075cc3a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -219,8 +219,8 @@ class Grammar(Parsimonious):
         
         for line in script:
             linenum += 1
-            line = line.rstrip()                    # trailing whitespace removed
-            tail = line.lstrip()
+            line = line.rstrip(' \t\r\f\v') if line.strip() else ''        # trailing whitespace removed
+            tail = line.lstrip(' \t')               # only spaces and tabs make indentation; other unicode whitespace is text
             indent = line[: len(line) - len(tail)]
             
             if not tail and linenum <= total:       # only whitespace in line? add to the `margin`
-- 
2.43.0


From 1aad00d37bb6bb4df9bca1d347c46910d8288fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 08/46] fix: unpack assignment targets like Python: with a
 trailing comma, and before anything is assigned

---
 src/hypertag/core/ast.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 075cc3a..e7c53b1 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1044,7 +1044,11 @@ class NODES(object):
     class xtargets(node):
         def is_augmented(self):
             """True if self represents multiple targets (not a plain variable) to assign to."""
-            return len(self.children) >= 2 or self.children[0].type != 'var_def'
+            return self.is_unpacked() or self.children[0].type != 'var_def'
+        
+        def is_unpacked(self):
+            """True if the value must be unpacked: there is at least one comma, possibly a trailing one."""
+            return len(self.children) >= 2 or self.text().endswith(',')
         
         def set_inplace(self):
             self.children[0].set_inplace()
@@ -1056,17 +1060,20 @@ class NODES(object):
         def assign(self, state, value):
             """Unpack `value` and assign to child targets."""
             N = len(self.children)
-            if N == 1:
+            if not self.is_unpacked():
                 self.children[0].assign(state, value)
                 return
             
-            # unpack and assign to multiple child targets
-            i = 0
-            for i, v in enumerate(value):               # raises TypeError if `value` is not iterable
-                if i >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
-                self.children[i].assign(state, v)
-            if i+1 < N:
-                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, i+1), self)
+            # unpack and assign to child targets
+            values = []
+            for v in value:                             # raises TypeError if `value` is not iterable
+                if len(values) >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
+                values.append(v)
+            if len(values) < N:
+                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, len(values)), self)
+            
+            for child, v in zip(self.children, values): # nothing is assigned when unpacking fails
+                child.assign(state, v)
             
         def evaluate(self, state):
             assert len(self.children) == 1
-- 
2.43.0


From b856cc05f2fa668a81710cf5a3a331613c3608fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 09/46] fix: publish the cache of built-in symbols only when it
 is complete

---
 src/hypertag/core/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 17396f6..e40a2eb 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -333,10 +333,11 @@ class Runtime:
         This typically means all general-purpose symbols + standard tags/variables specific for a target language.
         """
         if self._builtins is None:
-            self._builtins = {}
+            symbols = {}
             for path in self.BUILTINS:
                 module = self.import_module(path, RootModule(), None)
-                self._builtins.update(module.symbols)
+                symbols.update(module.symbols)
+            self._builtins = symbols            # published when complete, the runtime can be shared by many threads
                 
         return dict(self._builtins)
         
-- 
2.43.0


From f0066ed9f36a3feecdc9134ff7568ff876180c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 10/46] fix: Django backend must not modify the context passed
 by the caller

---
 src/hypertag/django/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index 4058080..28fa4e6 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -69,8 +69,7 @@ class Template:
         self.filename = filename
 
     def render(self, context=None, request=None):
-        if context is None:
-            context = {}
+        context = dict(context or {})       # the caller's context must not be modified
         if request is not None:
             context['request'] = request
             context['csrf_input'] = csrf_input_lazy(request)
-- 
2.43.0


From fc0717fc08e9f96c7661ff2050bb94a41ae4df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 11/46] fix: Django filters must not reconfigure a project that
 is already configured

---
 src/hypertag/django/filters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/django/filters.py b/src/hypertag/django/filters.py
index 23e1bc8..31038bb 100644
--- a/src/hypertag/django/filters.py
+++ b/src/hypertag/django/filters.py
@@ -20,11 +20,12 @@ from django.template.defaultfilters import register as __register_default__
 from django.contrib.humanize.templatetags.humanize import register as __register_humanize__
 
 ##
-## for now, Django's default settings are always used in those filters that depend on them
+## inside a configured Django project the filters depend on its settings, otherwise Django's default settings are used
 ##
 
-__settings__.configure()
-__django__.setup()
+if not __settings__.configured:
+    __settings__.configure()
+    __django__.setup()
 
 
 globals().update(__register_humanize__.filters)
-- 
2.43.0


From 98a57a27f66765c14ae52d55249bec06762e2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 12/46] fix: analyse the else clause of a for loop, and do not
 take it for the loop body when the body is missing

---
 src/hypertag/core/ast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index e7c53b1..27e3067 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -947,8 +947,8 @@ class NODES(object):
         
         def setup(self):
             self.targets, self.expr = self.children[:2]
-            self.body = self.children[2] if len(self.children) >= 3 else None
             self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
+            self.body = self.children[2] if len(self.children) >= 3 and self.children[2] is not self.else_ else None
             assert isinstance(self.expr, NODES.expression)
             assert self.targets.type == 'targets'
             # assert self.targets.type == 'var', 'Support for multiple targets in <for> not yet implemented'
@@ -957,6 +957,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
+            if self.else_: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From 9743ffbf734ec2059b43aa37ee8cdba93d053dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 13/46] fix: allow an empty body of the else clause

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 27e3067..b54d617 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -913,8 +913,8 @@ class NODES(object):
         
     class xclause_else(node):
         def translate(self, state):
-            assert len(self.children) == 1
-            return self.children[0].translate(state)
+            assert len(self.children) <= 1
+            return self.children[0].translate(state) if self.children else DOM()
         
     class xblock_while(control_block):
         # def _analyse_branches(self, ctx):
-- 
2.43.0


From ec344383745f2f5ae952381673ce03554ab3d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 14/46] fix: DOM.alter() applied preorder and postorder the
 other way round

---
 src/hypertag/core/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 3073649..012a6c5 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -174,13 +174,13 @@ class DOM:
         the input node itself can also be returned.
         The alter() function returns self.
         """
-        if order == 'preorder':
+        if order == 'postorder':
             for node in self.nodes: node.alter(transform, skip, order)
         
         new_nodes  = itertools.chain(*(transform(node) for node in self.nodes))
         self.nodes = self._flatten(new_nodes)
         
-        if order == 'postorder':
+        if order == 'preorder':
             for node in self.nodes: node.alter(transform, skip, order)
 
         return self
-- 
2.43.0


From 4c7648ea743676ed8e9f2fd7605f6e5807f657f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 15/46] fix: select nodes by attribute in a DOM with nodes that
 have no attributes

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 012a6c5..495a123 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -253,7 +253,7 @@ class DOM:
         if name is not None and (node.tag is None or node.tag.name != name): return False
         
         for a, v in attrs.items():
-            if a not in node.kwattrs: return False
+            if not node.kwattrs or a not in node.kwattrs: return False
             if v is not DOM.ATTR_DEFINED and node.kwattrs[a] != v: return False
 
         return True
-- 
2.43.0


From 9b36505388734a4d4e3c9ed1a2af681c77a680e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 16/46] fix: a slice of a DOM is a DOM of nodes, not of a list

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 495a123..cb53d1b 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -95,7 +95,7 @@ class DOM:
         if isinstance(pos, int):
             return self.nodes[pos]
         if isinstance(pos, (int, slice)):
-            return DOM(self.nodes[pos], _strict = False)
+            return DOM(*self.nodes[pos], _strict = False)
         # if isinstance(pos, (str, Tag)):
         return self.select(pos)
     
-- 
2.43.0


From 274e596c4cdc5119d02141043372851608339184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 17/46] fix: load an imported script only once, whichever path
 it is imported by

---
 src/hypertag/core/runtime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index e40a2eb..42ada86 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -273,6 +273,9 @@ class HyLoader(Loader):
         if not location or not os.path.exists(location):
             return None
         
+        location = os.path.abspath(location)                # canonical form, the same for all spellings of the path
+        if location in self.cache: return self.cache[location]
+        
         package = python_path.rsplit('.', 1)[0] if python_path else None
         
         script = open(location).read()
-- 
2.43.0


From 12cbca3c0b9a50e051b4e1a6c273510dfe61aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 18/46] fix: import scripts from folders that are not Python
 packages; set the package of a script to its import path

---
 src/hypertag/core/runtime.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 42ada86..27d63e8 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -248,15 +248,19 @@ class HyLoader(Loader):
             # 2. try the Python's standard import mechanism (importlib); must be applied to the parent package, not the script itself
             if not location and '.' in path:
                 package_name, filename = path.rsplit('.', 1)
-                pkg = importlib.import_module(package_name)                 # package_name is an absolute path, so referrer is not needed here
-                package_path = pkg.__file__
-                if package_path.endswith('.py'):
-                    package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
+                try:
+                    pkg = importlib.import_module(package_name)             # package_name is an absolute path, so referrer is not needed here
+                    package_path = getattr(pkg, '__file__', None)           # missing or None in a folder without __init__.py
+                except ModuleNotFoundError:
+                    package_path = None
                 
-                location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_path + '.' + filename
-                if location and not os.path.exists(location):
-                    location = python_path = None
+                if package_path:
+                    if package_path.endswith('.py'):
+                        package_path = os.path.dirname(package_path)        # truncate /__init__.py part of a package file path
+                    location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
+                    python_path = package_name + '.' + filename
+                    if not os.path.exists(location):
+                        location = python_path = None
                 
             # 3. try using the process' current folder as a root
             if not location:
-- 
2.43.0


From ade32e14a8cb3a3f2e993d2c1041d8ec9e72cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 19/46] fix: resolve imports of a script that was given by a
 plain file name

---
 src/hypertag/core/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 27d63e8..069fa89 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -228,7 +228,7 @@ class HyLoader(Loader):
         
         # whenever possible, python package path (python_path) of the module is inferred, so that its `package` can be set
         location = python_path = None
-        ref_root = os.path.dirname(referrer.filename) if referrer.filename else None
+        ref_root = os.path.dirname(os.path.abspath(referrer.filename)) if referrer.filename else None
         
         # relative import path is always resolved relative to the referrer's folder
         if path[:1] == '.':
-- 
2.43.0


From 5309c01a8d6686f5c6fa353d5f472057b0c215ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 20/46] fix: report circular imports instead of crashing on
 endless recursion

---
 src/hypertag/core/runtime.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 069fa89..21fca5b 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -1,4 +1,4 @@
-import os, sys, importlib
+import os, sys, importlib, threading
 
 from hypertag.core.errors import ImportErrorEx, ModuleNotFoundEx
 from hypertag.core.grammar import MARK_VAR, MARK_TAG, VAR, TAG, TAGS
@@ -223,6 +223,7 @@ class HyLoader(Loader):
     def __init__(self, resolve = None):
         super(HyLoader, self).__init__()
         self.resolve = resolve
+        self.loading = threading.local()        # locations of scripts being loaded now by a given thread
 
     def load(self, path, referrer, runtime):
         
@@ -284,7 +285,14 @@ class HyLoader(Loader):
         
         script = open(location).read()
         
-        module = self.cache[location] = runtime.translate(script, location, package)
+        loading = self.loading.__dict__.setdefault('locations', set())
+        if location in loading: raise ImportErrorEx("circular import of '%s'" % location)
+        loading.add(location)
+        try:
+            module = self.cache[location] = runtime.translate(script, location, package)
+        finally:
+            loading.discard(location)
+        
         module.location = location
         module.package = package
         
-- 
2.43.0


From 307ed1a0993f894c4a478930c42b73307065d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 21/46] fix: error messages give the line where the offending
 construct begins

---
 src/hypertag/core/ast.py      | 4 ++--
 src/hypertag/nifty/parsing.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index b54d617..7809845 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -581,7 +581,7 @@ class NODES(object):
             
             # check that attr names are unique
             if len(self.attr_names) < len(self.attrs):
-                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (duplicate(self.attrs), self.name), self)
+                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (duplicate([attr.name for attr in self.attrs]), self.name), self)
             
             # pick body attribute (attr_body) and the remaining list of regular attributes (attr_regul)
             if self.attrs and self.attrs[0].body:
@@ -1170,7 +1170,7 @@ class NODES(object):
                 name = attr.name
                 expr = attr.expr
                 if name is None:
-                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument")
+                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument", self)
                     self.unnamed.append(expr)
                 else:
                     # if name in self.named: raise SyntaxErrorEx("attribute '{name}' appears twice on attributes list of tag '{self.name}'", attr)
diff --git a/src/hypertag/nifty/parsing.py b/src/hypertag/nifty/parsing.py
index 21f5ebb..af54a50 100755
--- a/src/hypertag/nifty/parsing.py
+++ b/src/hypertag/nifty/parsing.py
@@ -27,7 +27,7 @@ class ParserError(Exception):
         if node:
             self.node, self.pos, self.text = node, node.pos, node.text(self.MAXLEN)
         if self.pos:                                            # calculate the line number and column of self.pos, if possible
-            prefix = node.fulltext[:self.pos[1]]
+            prefix = node.fulltext[:self.pos[0]]
             self.line = prefix.count('\n') + 1
             self.column = len(prefix) - prefix.rfind('\n')
         msg = self.make_msg(msg) or msg
-- 
2.43.0


From d0ff067d4299477703d40e92b3b0bd878a019534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 22/46] fix: preserve type errors raised inside blocks, PyPy
 replaces them when a generator is unpacked

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 7809845..a1f41d4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -446,7 +446,7 @@ class NODES(object):
             super(NODES.xblock, self).analyse(ctx)
 
         def translate(self, state):
-            margin, block = (c.translate(state) for c in self.children)
+            margin, block = [c.translate(state) for c in self.children]        # a list: PyPy replaces TypeErrors raised in a generator being unpacked
             if not block: return margin
             
             append = (self.modifier == '...')
-- 
2.43.0


From c47d3c22cd26ab2eba3295ff27dc5c1ad91da300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 23/46] fix: a variable assigned in a branch of if/try inside a
 tagged block is visible after the block, also when it overrides an outer one

---
 src/hypertag/core/ast.py     | 2 +-
 src/hypertag/core/structs.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index a1f41d4..02c441e 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -810,7 +810,7 @@ class NODES(object):
                 branch.analyse(ctx)
                 symbols = ctx.asdict(position)          # top-level symbols declared in this branch...
                 ctx.reset(position)
-                ctx.pushnew(symbols)                    # ...only new symbols (not declared in a previous branch) are added
+                ctx.pushall(symbols)                    # ...stay visible in subsequent branches and after the block
                 
                 # local_slots.append(symbols)
                 # new_symbols += symbols.keys()
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 3838907..cd3b356 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -424,6 +424,9 @@ class Slot:
     primary = None      # 1st definition of this symbol, if self represents a re-assignment (override)
     depth   = None      # ctx.regular_depth of this slot, for correct identification of re-assignments that occur
                         # at the same depth (in the same namespace)
+    outer   = None      # slot of the same symbol in an outer namespace that is overridden by self; None if not present;
+                        # provides the value when self is uninitialized, because it was defined in a branch of a control block
+                        # that has not been executed
     
     def __init__(self, symbol, ctx):
         assert len(symbol) >= 2 and symbol[0] in '$%'
@@ -436,6 +439,8 @@ class Slot:
         from .ast import NODES
         assert link is None or isinstance(link, (Slot, NODES.attribute, NODES.variable)), 'unrecognized type of slot: %s' % type(link)
         
+        if isinstance(link, Slot): self.outer = link
+        
         # if link and link.depth == self.depth:
         #     self.primary = link
         # else:
@@ -446,7 +451,9 @@ class Slot:
         
     def get(self, state):
         """Raises KeyError if this slot is uninitialized in `state`."""
-        return state[self.primary or self]
+        slot = self.primary or self
+        if self.outer and slot not in state: return self.outer.get(state)
+        return state[slot]
     
 
 class ValueSlot(Slot):
-- 
2.43.0


From acc13fb02adf9d5ccf913f5c72f6b7a7be2ecef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 24/46] fix: do not test the truth value of expressions that
 have no qualifier

---
 src/hypertag/core/ast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 02c441e..b42a301 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1314,7 +1314,8 @@ class NODES(object):
                 if self.qualifier == '?': return ''
                 else: raise
             
-            if val: return val
+            # values that have no qualifier are not tested: their truth value may be undefined
+            if self.qualifier is None or val: return val
             
             # `val` is false ... check qualifiers to undertake appropriate action
             if self.qualifier == '?': return ''
-- 
2.43.0


From 9905b6edbcf9278eb2aee35372c7683008eb7abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 25/46] fix: a tuple of one item without parentheses (x,) is a
 tuple

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index b42a301..1714f09 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1964,7 +1964,7 @@ class HypertagAST(BaseTree):
     # nodes that will be replaced with their child if there is exactly 1 child AFTER rewriting of all children;
     # they must have a corresponding x... node class, because pruning is done after rewriting, not before
     _compact_ = "factor_filt factor_strict factor_var factor pow_expr term arith_expr shift_expr and_expr xor_expr or_expr concat_expr " \
-                "pipeline comparison not_test and_test or_test ifelse_test expr_tuple " \
+                "pipeline comparison not_test and_test or_test ifelse_test " \
                 "block_struct"
 
     _reduce_anonym_ = True      # reduce all anonymous nodes, i.e., nodes generated by unnamed expressions, typically groupings (...)
-- 
2.43.0


From 7b1191cc8a8d09e0d0c79898450c3e9dd984ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 26/46] fix: an empty try clause never fails, so that its else
 clauses are not rendered

---
 src/hypertag/core/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 1714f09..e3dd3f3 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -872,6 +872,8 @@ class NODES(object):
         If all branches fail, including the last one, empty output is rendered (exception from the last branch is NOT re-raised).
         """
         def _select_branch(self, state):
+            if not self.children or self.children[0].type == 'clause_else':
+                return DOM(), 0                         # empty body of the "try" clause, never fails
             for i, branch in enumerate(self.children):
                 try:
                     body = branch.translate(state)
-- 
2.43.0


From d9b43ae03bf022edab80589a260864f3c62b3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 27/46] fix: layout of chained tags around or inside a hypertag
 in an indented block, crashed with AssertionError

---
 src/hypertag/core/ast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index e3dd3f3..9f95827 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -112,7 +112,9 @@ class ImportedHypertag(Hypertag):
     def expand(self, body, attrs, kwattrs, state, caller):
         
         # module's terminal state is copied inside expand(), so its stored values do NOT change after the call below
-        return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
+        dom = self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
+        dom.set_indent(state.indentation)               # layout is relative to the place of the call
+        return dom
 
 class EmbeddedHypertag:
     """
@@ -1198,7 +1200,7 @@ class NODES(object):
                 return tag.expand(body, attrs, kwattrs, state, self)
             
             elif isinstance(tag, Tag):
-                return DOM.node(body, tag = tag, attrs = attrs, kwattrs = kwattrs)
+                return DOM.node(body, state.indentation, tag = tag, attrs = attrs, kwattrs = kwattrs)
             
             else:
                 raise NotATagEx("Not a tag: '%s' (%s)" % (self.name, tag.__class__), self)
@@ -1218,7 +1220,7 @@ class NODES(object):
             
     class xnull(node):
         def translate_tag(self, state, body):
-            return DOM.node(body, tag = null)
+            return DOM.node(body, state.indentation, tag = null)
         
     class xpass(node):
         def translate(self, state):
-- 
2.43.0


From ea068db0d088b5f80ec732881d570e05c4d87e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 28/46] fix: evaluate attributes of tags before the body and
 from left to right, in the order of the script

---
 src/hypertag/core/ast.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 9f95827..58c890d 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -555,8 +555,9 @@ class NODES(object):
             ctx.regular_depth -= 1
             
         def translate(self, state):
+            attrs = self.tags.eval_attrs(state)             # attributes stand before the body in the script
             body = self.body.translate(state)
-            body = self.tags.apply_tags(state, body)
+            body = self.tags.apply_tags(state, body, attrs)
             body.set_indent(state.indentation)
             return body
 
@@ -1134,10 +1135,17 @@ class NODES(object):
 
     class xtags_expand(node):
         """List of tag_expand nodes."""
-        def apply_tags(self, state, body):
-            """Wrap up the translated `body` (a DOM, not AST) with subsequent tags processed (expanded) in reverse order."""
-            for tag in reversed(self.children):
-                body = tag.translate_tag(state, body)
+        def eval_attrs(self, state):
+            """Actual values of attributes of all the tags, evaluated in the order of occurrence."""
+            return [tag.eval_attrs(state) for tag in self.children]
+            
+        def apply_tags(self, state, body, attrs):
+            """
+            Wrap up the translated `body` (a DOM, not AST) with subsequent tags processed (expanded) in reverse order.
+            `attrs` is a list of values of attributes as returned by eval_attrs().
+            """
+            for tag, (unnamed, named) in reversed(list(zip(self.children, attrs))):
+                body = tag.translate_tag(state, body, unnamed, named)
             return body
         
     class xtag_expand(node):
@@ -1186,13 +1194,11 @@ class NODES(object):
             self.tag = ctx.get(TAG(self.name))
             if self.tag is None: raise UndefinedTagEx("undefined tag '%s'" % self.name, self)
             
-        def translate_tag(self, state, body):
+        def translate_tag(self, state, body, attrs, kwattrs):
             """
-            translate_tag() differs from a regular translate() in that it accepts `body` additionaly.
+            translate_tag() differs from a regular translate() in that it accepts `body` additionaly, and actual values of attributes.
             The actual `body` is already translated and has a form of a DOM.
             """
-            attrs, kwattrs = self._eval_attrs(state)            # calculate actual values of attributes
-            
             assert isinstance(self.tag, Slot)
             tag = self.tag.get(state)
 
@@ -1205,7 +1211,7 @@ class NODES(object):
             else:
                 raise NotATagEx("Not a tag: '%s' (%s)" % (self.name, tag.__class__), self)
             
-        def _eval_attrs(self, state):
+        def eval_attrs(self, state):
             unnamed = [attr.evaluate(state) for attr in self.unnamed]
             
             named = {}
@@ -1219,7 +1225,9 @@ class NODES(object):
             return unnamed, named
             
     class xnull(node):
-        def translate_tag(self, state, body):
+        def eval_attrs(self, state):
+            return [], {}
+        def translate_tag(self, state, body, attrs, kwattrs):
             return DOM.node(body, state.indentation, tag = null)
         
     class xpass(node):
-- 
2.43.0


From f39cc1e0ecf00572ea3164571c62b127e759fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:03 +0000
Subject: [PATCH 29/46] fix: an even number of not operators gives a boolean
 like in Python

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 58c890d..8728f65 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1703,7 +1703,7 @@ class NODES(object):
             assert len(self.children) >= 2 and all(c.type == 'not' for c in self.children[:-1])
             neg = not (len(self.children) % 2)              # check parity of 'children' to see if negation appears even or odd no. of times
             val = self.children[-1].evaluate(state)
-            return not val if neg else val
+            return not val if neg else bool(val)
     
     class xand_test(simple_chain_expression):
         "chain of logical 'and' operators. Lazy evaluation: if false item is encountered, it's returned without evaluation of subsequent items"
-- 
2.43.0


From 516729caac52fbc50d1586e8c80d848302a16b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:11 +0000
Subject: [PATCH 30/46] fix: do not test the truth value of the last result in
 a chain of comparisons

---
 src/hypertag/core/ast.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 8728f65..e06acad 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1689,12 +1689,14 @@ class NODES(object):
         raise_null = False
 
         def evaluate(self, state):
-            left = self.children[0].evaluate(state)
-            for op, expr in zip(self.children[1::2], self.children[2::2]):
+            left  = self.children[0].evaluate(state)
+            right = self.children[2].evaluate(state)
+            res   = self.children[1].apply(left, right)
+            for op, expr in zip(self.children[3::2], self.children[4::2]):
+                if not res: break                           # the last result is not tested: its truth value may be undefined
+                left  = right
                 right = expr.evaluate(state)
                 res   = op.apply(left, right)
-                if not res: break
-                left  = right
             return res
         
     class xnot_test(expression):
-- 
2.43.0


From 20fb179e2b6784a74c4b4612b430ed975ddc5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:01 +0000
Subject: [PATCH 31/46] fix: a comparison x!=y without spaces is not an
 obligatory expression followed by =

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 3561579..c6431e9 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -191,7 +191,7 @@ atom         =  literal / var_use / tag_use / subexpr / tuple / list / dict / se
 factor_var   =  var_use trailer* qualifier?                   # reduced form of `factor`: a variable with optional trailer, no spaces allowed
 factor_strict=  atom trailer* qualifier?                      # reduced form of `factor`: no spaces allowed before the trailer
 factor_filt  =  atom trailer_filt*                            # reduced form of `factor`: no function call () allowed; for use as filter function in `pipeline`
-factor       =  atom (ws trailer)* qualifier?                 # operators: () [] .
+factor       =  atom (ws trailer)* (!'!=' qualifier)?         # operators: () [] .   ... x!=y is a comparison, x! a qualifier
 
 pow_expr     =  factor (ws op_power ws factor)*
 term         =  pow_expr (ws op_multiplic ws pow_expr)*       # operators: * / // percent
-- 
2.43.0


From ce853a47e9c571b862ea65aec120a93a437ddc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:19 +0000
Subject: [PATCH 32/46] fix: a keyword argument repeated in a call is a syntax
 error like in Python

---
 src/hypertag/core/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index e06acad..648e2be 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1464,6 +1464,10 @@ class NODES(object):
 
     class xcall(tail):
         title = 'function call (...)'                   # for error messaging
+        def setup(self):
+            repeated = duplicate([c.name for c in self.children if c.type == 'kwarg'])
+            if repeated: raise SyntaxErrorEx("keyword argument '%s' repeated" % repeated, self)
+            
         def apply(self, fun, state):
             args, kwargs = self._evaluate_args(state)
             return fun(*args, **kwargs)
-- 
2.43.0


From 1566acdd442e8bf11c9a10ca185815fa62ec8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 33/46] fix: redefinitions of built-in names in a script are
 exported like its other variables

---
 src/hypertag/core/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 648e2be..4909b16 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -392,8 +392,10 @@ class NODES(object):
             if globals: self.globals = globals
         
         def analyse(self, ctx):
+            ctx.regular_depth -= 1              # predefined symbols make up an outer namespace: their redefinitions belong to this document
             self.slots_in = {symbol: ValueSlot(symbol, value, ctx) for symbol, value in self.globals.items()}
             # ctx.pushall(self.slots_in)   -- not needed because each symbol is pushed to `ctx` during ValueSlot() creation
+            ctx.regular_depth += 1
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
             self.slots_out = ctx.asdict(position)           # pull newly defined top-level symbols from the tree
-- 
2.43.0


From 6ad5d26d302df1bafa14c2d8f2865a5822fd493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 34/46] fix: a script is not looked up beside a Python module
 that is no package

---
 src/hypertag/core/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 21fca5b..f3f34ab 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -252,6 +252,7 @@ class HyLoader(Loader):
                 try:
                     pkg = importlib.import_module(package_name)             # package_name is an absolute path, so referrer is not needed here
                     package_path = getattr(pkg, '__file__', None)           # missing or None in a folder without __init__.py
+                    if not hasattr(pkg, '__path__'): package_path = None    # a regular module, not a package
                 except ModuleNotFoundError:
                     package_path = None
                 
-- 
2.43.0


From 48d434efcb73fd869b3874051e084040f314efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 35/46] fix: nesting that exceeds the stack raises
 RecursionError instead of crashing the process

---
 src/hypertag/core/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index f3f34ab..fc8ed82 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -13,8 +13,9 @@ PATH_SEP = os.path.sep
 #####
 
 # set Python's global recursion limit to at least MIN_RECURSION_LIMIT to avoid RecursionError
-# when parsing deeply nested scripts
-MIN_RECURSION_LIMIT = 20000
+# when parsing deeply nested scripts; higher values than this can exceed the native stack (8 MB, typically),
+# in which case the process crashes instead of raising RecursionError
+MIN_RECURSION_LIMIT = 10000
 sys.setrecursionlimit(max(sys.getrecursionlimit(), MIN_RECURSION_LIMIT))
 
 
-- 
2.43.0


From 156eb3ceacc8d9e435aef0f8ab92b572c57666a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 36/46] fix: a qualifier after an embedded positional or
 default attribute ({x}?) does not crash the parser

---
 src/hypertag/core/ast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 4909b16..54782f9 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1266,10 +1266,11 @@ class NODES(object):
             
     class xattr_def(attribute):
         def setup(self):
-            assert 1 <= len(self.children) <= 2
+            assert 1 <= len(self.children) <= 3
             self.name = self.children[0].value          # <name_xml>
-            if len(self.children) == 2:
+            if len(self.children) >= 2:
                 self.expr = self.children[1]
+            # there can be a qualifier as self.children[2]; its existence is already taken into account by self.children[1]
             
     # in-occurrence attributes:  xattr_named, xattr_unnamed, xattr_short
     
@@ -1282,8 +1283,9 @@ class NODES(object):
             
     class xattr_unnamed(attribute):
         def setup(self):
-            assert len(self.children) == 1
+            assert 1 <= len(self.children) <= 2
             self.expr = self.children[0]
+            # there can be a qualifier as self.children[1]; its existence is already taken into account by self.children[0]
             
     class xattr_short(attribute):
         def setup(self):
-- 
2.43.0


From c455dac1c9f21835ed69e7a21ee53d157a467fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:31 +0000
Subject: [PATCH 37/46] fix: surrogates are not used for marker characters of
 the parser

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 54782f9..464a863 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -188,7 +188,7 @@ class Grammar(Parsimonious):
         # find 4 unicode characters that are not in `text`; start with CHARS_DEFAULT[0]
         code = ord(Grammar.CHARS_DEFAULT[0])
         for _ in range(4):
-            while chr(code) in text:
+            while chr(code) in text or 0xD800 <= code <= 0xDFFF:        # surrogates cannot be put in a grammar
                 code += 1
             chars.append(chr(code))
             code += 1
-- 
2.43.0


From af68a5d96a46b3aac8f0e8d6809a2f35bfd633f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 38/46] fix: crop and truncate are available as tags, as
 documented

---
 src/hypertag/std/builtins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hypertag/std/builtins.py b/src/hypertag/std/builtins.py
index 48cd448..41dce33 100644
--- a/src/hypertag/std/builtins.py
+++ b/src/hypertag/std/builtins.py
@@ -1,6 +1,7 @@
 import re, itertools
 from hypertag.nifty.util import unique as unique_list, merge_spaces
 from hypertag.core.dom import del_indent
+from hypertag.core.tag import TagFunction
 from hypertag.std.registry import Registry
 
 
@@ -123,6 +124,7 @@ def changes(seq, first = True):
             yield value, (value != prev)
         prev = value
 
+@register.tag
 @register.var
 def crop(s, length = 255, end = '...', killwords = False, maxdrop = 10, leeway = 0):
     """
@@ -153,6 +155,10 @@ def crop(s, length = 255, end = '...', killwords = False, maxdrop = 10, leeway =
 truncate = crop
 register.var('truncate', truncate)          # truncate() is an alias for crop(), for similarity with Jinja/Django
 
+truncate_tag = TagFunction(truncate)
+truncate_tag.name = 'truncate'
+register.tag(truncate_tag)
+
 
 ########################################################################################################################################################
 
-- 
2.43.0


From 7416d637fc135d278ffb5f1bfd0a17f9f03681ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:32 +0000
Subject: [PATCH 39/46] fix: Django filters must not override the settings
 module of a project that is not set up yet

---
 src/hypertag/django/filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/django/filters.py b/src/hypertag/django/filters.py
index 31038bb..17b3e1f 100644
--- a/src/hypertag/django/filters.py
+++ b/src/hypertag/django/filters.py
@@ -14,6 +14,7 @@ OR, if imported in a Hypertag script:
 
 """
 
+import os as __os__
 import django as __django__
 from django.conf import settings as __settings__
 from django.template.defaultfilters import register as __register_default__
@@ -23,7 +24,7 @@ from django.contrib.humanize.templatetags.humanize import register as __register
 ## inside a configured Django project the filters depend on its settings, otherwise Django's default settings are used
 ##
 
-if not __settings__.configured:
+if not __settings__.configured and not __os__.environ.get('DJANGO_SETTINGS_MODULE'):
     __settings__.configure()
     __django__.setup()
 
@@ -31,6 +32,7 @@ if not __settings__.configured:
 globals().update(__register_humanize__.filters)
 globals().update(__register_default__.filters)
 
+del globals()['__os__']
 del globals()['__django__']
 del globals()['__settings__']
 del globals()['__register_default__']
-- 
2.43.0


From 3848e36d4e559dab99537e4b7c3399c73a4c8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:36 +0000
Subject: [PATCH 40/46] fix: the error about a wrong item embedded with @ gives
 its location

---
 src/hypertag/core/ast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 464a863..6b0119b 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -538,7 +538,10 @@ class NODES(object):
                 body = list(body)
             except Exception as ex:
                 raise TypeErrorEx("embedded @-expression evaluates to %s instead of a DOM or DOM.Node or an iterable of DOM.Node's" % type(body), self)
-            return DOM(*body)
+            try:
+                return DOM(*body)
+            except TypeErrorEx as ex:                           # some item is not a node
+                raise TypeErrorEx(str(ex), self)
 
     class xblock_struct(node):
         tags = None         # <tags_expand> node
-- 
2.43.0


From fbef2bfdf3706e134f4053be92f14b3d553e33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:36 +0000
Subject: [PATCH 41/46] fix: all errors of imports give the location of the
 import

---
 src/hypertag/core/ast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 6b0119b..d65c1aa 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -716,7 +716,11 @@ class NODES(object):
         def _import(self, path):
             runtime = self.tree.runtime
             module  = self.tree.module
-            return runtime.import_module(path, module, self)
+            try:
+                return runtime.import_module(path, module, self)
+            except ImportErrorEx as ex:
+                if ex.pos: raise
+                raise ImportErrorEx(str(ex), self)              # add the location of the import
         
     class xwild_import(_import):
         path    = None          # path string as specified in the "from" clause
-- 
2.43.0


From 93a9b2d78b0dbd75cd1a70431ef0b1837bff34b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:19 +0000
Subject: [PATCH 42/46] fix: control blocks without a body can have an inline
 comment

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index c6431e9..9b46c2e 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -90,7 +90,7 @@ pass             =  'pass'
 generic_control  =  (ws body_text) / body_control               # like body_control, but additionally allows full-text body
 generic_struct   =  (ws body_text) / body_struct                # like body_struct, but additionally allows full-text body
 
-body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment? tail_blocks)
+body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment tail_blocks?) / tail_blocks
 body_struct      =  (ws mark_struct)? ((ws headline) / inline_comment)? tail_blocks?       # this rule matches empty string '' (!)
 
 body_text        =  block_verbat / block_normal / block_markup / block_embed
-- 
2.43.0


From 583aa11d3c136b9aab1289047b0dc128a4ad98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:07 +0000
Subject: [PATCH 43/46] fix: body of a tag called in an expression is a DOM,
 like in a tagged block

---
 src/hypertag/core/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/tag.py b/src/hypertag/core/tag.py
index c28ea7d..8663168 100644
--- a/src/hypertag/core/tag.py
+++ b/src/hypertag/core/tag.py
@@ -40,7 +40,7 @@ class Tag:
         without an intermediate DOM. This method can be used as a shortcut inside Hypertag expressions
         to skip DOM creation entirely.
         """
-        body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        body = DOM.text(text_type(body_string)) if body_string is not None else DOM()
         return self.expand(body, attrs, kwattrs)
         
 
-- 
2.43.0


From 4a84eaf4e36c6fb7e5bb88788d87838114968be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:38 +0000
Subject: [PATCH 44/46] fix: tags whose names start with try or else can be
 used

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 9b46c2e..ab65874 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -29,7 +29,7 @@ append           =  '...'                       # marks the block is a continuat
 block_control    =  block_assign / block_expr / block_if / block_try / block_for / block_while
 
 block_try        =  try_long / try_short
-try_long         =  'try' generic_control? clause_else*
+try_long         =  ~"try\\b" generic_control? clause_else*
 try_short        =  '?' ws (block_struct / body_control)?       # short version of "try" block:  ?tag ... or ?|...
 
 block_expr       =  mark_eval expr_assign
@@ -42,7 +42,7 @@ block_for        =  'for' space targets space 'in' space tail_for clause_else?
 block_if         =  'if' clause_if (nl 'elif' clause_if)* clause_else?
 
 clause_if        =  space tail_if
-clause_else      =  nl 'else' generic_control?
+clause_else      =  nl ~"else\\b" generic_control?
 
 targets          =  target (comma target)* (ws ',')?            # result object must be unpacked whenever at least one ',' was parsed
 target           =  ('(' ws targets ws ')') / var_def           # left side of assignment: a variable, or a tuple of variables/sub-tuples
-- 
2.43.0


From 2a45df66c92aa1e3bfc62f6ddc4f51f8e32b2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:38 +0000
Subject: [PATCH 45/46] fix: a name that starts with not can follow the
 operator is

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index ab65874..cbdec1c 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -246,7 +246,7 @@ op_shift     =  '<<' / '>>'
 op_empty     =  '?' / '!'
 
 not          =  'not'
-op_comp      =  ~"==|!=|<>|>=|<=|<|>|not\s+in|is\s+not|in|is"
+op_comp      =  ~"==|!=|<>|>=|<=|<|>|(not\s+in|is\s+not|in|is)\\b"
 
 ###  IDENTIFIERS
 
-- 
2.43.0


From fdcdf2b6af8c985feb69a49d4b80f31880fd0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:38 +0000
Subject: [PATCH 46/46] fix: an inline comment can follow pass

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index cbdec1c..798dbfa 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -76,7 +76,7 @@ block_struct     =  (tags_expand generic_struct) / body_text    # text block is
 tags_expand      =  null / (tag_expand (ws mark_struct ws tag_expand)*)
 tag_expand       =  name_id attrs_val
 
-special_tag      =  pass ''   #/ break_tag / continue_tag
+special_tag      =  pass inline_comment? ''   #/ break_tag / continue_tag
 
 null             =  '.'
 pass             =  'pass'
-- 
2.43.0

