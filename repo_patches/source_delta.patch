From 2095aba657776507b7c08317ef6d7b603402178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 01/47] fix: a missing Bunch attribute raises AttributeError,
 so hasattr, getattr with default and copy work

---
 mcpyrate/bunch.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index 9277e4a..c8a1801 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -25,6 +25,7 @@ class Bunch:
     def copy(self):
         """Return a copy of this `Bunch`."""
         return Bunch(**{k: v for k, v in self._data.items()})
+    __copy__ = copy
     def replace(self, other):
         """Replace all data in this `Bunch` with data from the `other` one (shallow-copying it)."""
         if not isinstance(other, Bunch):
@@ -32,7 +33,12 @@ class Bunch:
         self._data = other.copy()._data
 
     def __getattr__(self, name):
-        return self._data[name]
+        if name == "_data":  # not initialized yet (e.g. when unpickling)
+            raise AttributeError(name)
+        try:
+            return self._data[name]
+        except KeyError:
+            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'") from None
     def __setattr__(self, name, value):
         if name in ("_data", "_reserved_names"):
             return super().__setattr__(name, value)
@@ -40,7 +46,10 @@ class Bunch:
             raise AttributeError(f"Cannot write to reserved attribute '{name}'")
         self._data[name] = value
     def __delattr__(self, name):
-        del self._data[name]
+        try:
+            del self._data[name]
+        except KeyError:
+            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'") from None
 
     # Container, Iterable, Sized
     def __contains__(self, name):
-- 
2.43.0


From 8927101148702a7c499ed6a55b7e6471f85757e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 02/47] fix: an item named 'self' no longer breaks Bunch
 creation, copy, replace and update

---
 mcpyrate/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index c8a1801..5e5386a 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -17,7 +17,7 @@ class Bunch:
         assert b.cat == "meow"
         assert b.dog == "woof"
     """
-    def __init__(self, **bindings):
+    def __init__(self, /, **bindings):
         self._data = bindings
         self._reserved_names = []
         self._reserved_names = dir(self)
@@ -86,7 +86,7 @@ class Bunch:
         return self._data.popitem()
     def clear(self):
         return self._data.clear()
-    def update(self, **bindings):
+    def update(self, /, **bindings):
         self._data.update(**bindings)
     def setdefault(self, name, *default):
         return self._data.setdefault(name, *default)
-- 
2.43.0


From 391045867b7fbfd4bb7cd8d76ced0f5ce7a42a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 03/47] fix: bunchify rejects non-string keys with the
 documented ValueError

---
 mcpyrate/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index 5e5386a..075d890 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -134,8 +134,8 @@ def bunchify(d):
         return d
     if not all(isinstance(d, cls) for cls in _virtual_bases):
         raise TypeError(f"`d` did not declare it implements the expected APIs ({_virtual_bases}); got {type(d)} with value {repr(d)}")
-    if not all(x.isidentifier() for x in d):
-        invalid_keys = [x for x in d if not x.isidentifier()]
+    invalid_keys = [x for x in d if not (isinstance(x, str) and x.isidentifier())]
+    if invalid_keys:
         invalid_keys_msg = ", ".join(repr(x) for x in invalid_keys)
         raise ValueError(f"`d` has one or more keys that are not valid identifiers: {invalid_keys_msg}")
     b = Bunch()
-- 
2.43.0


From 841111de601cae8fd9699adffa6598c8f368904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 04/47] fix: unparse dictionary unpacking inside a dict display

---
 mcpyrate/unparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 07ccdad..56742c6 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -733,8 +733,11 @@ class Unparser:
         self.write("{")
         def write_pair(pair):
             (k, v) = pair
-            self.dispatch(k)
-            self.write(": ")
+            if k is None:  # dictionary unpacking, `{**v}`
+                self.write("**")
+            else:
+                self.dispatch(k)
+                self.write(": ")
             self.dispatch(v)
         interleave(lambda: self.write(", "), write_pair, zip(t.keys, t.values))
         self.write("}")
-- 
2.43.0


From c73972bd5173d8d29927053d5efae3f231a5ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 05/47] fix: keep the parentheses when unparsing an empty tuple
 as a subscript slice

---
 mcpyrate/unparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 56742c6..4dc03f0 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -886,7 +886,8 @@ class Unparser:
         self.write("[")
         # Python 3.9+: Omit parentheses for a tuple directly inside a Subscript slice.
         # See https://bugs.python.org/issue34822
-        if type(t.slice) is ast.Tuple:
+        # The parentheses of an empty tuple must stay; `a[]` is a syntax error.
+        if type(t.slice) is ast.Tuple and t.slice.elts:
             self.__Tuple_helper(t.slice)
         else:
             self.dispatch(t.slice)
-- 
2.43.0


From f88cd91dbd93c09ead0114a956761073a46607e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 06/47] fix: unparse `ast.Expression`, whose body is not a list

---
 mcpyrate/unparser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 4dc03f0..2986093 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -297,12 +297,12 @@ class Unparser:
             self.fill(self.maybe_colorize(label, ColorScheme.INVISIBLENODE),
                       lineno_node=t)
             self.enter()
-            for stmt in t.body:
-                self.dispatch(stmt)
+            if isinstance(t, ast.Expression):
+                self.write(" ")
+            self.dispatch(t.body)
             self.leave()
         else:
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)
 
     # stmt
     def _Expr(self, t):
-- 
2.43.0


From 949e8db42ffb7efdca4a9595b49c06ce048e3fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 07/47] fix: unparse the type parameters of functions and
 classes

---
 mcpyrate/unparser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 2986093..539278c 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -489,6 +489,7 @@ class Unparser:
         class_str = (self.maybe_colorize_python_keyword("class ") +
                      self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(class_str, lineno_node=t)
+        self.__type_params_helper(t)
         if t.bases or t.keywords:
             self.write("(")
         comma = False
@@ -533,8 +534,10 @@ class Unparser:
                     self.write(setcolor())
 
         def_str = (self.maybe_colorize_python_keyword(fill_suffix) +
-                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME) + "(")
+                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(def_str, lineno_node=t)
+        self.__type_params_helper(t)
+        self.write("(")
         self.dispatch(t.args)
         self.write(")")
         if t.returns:
@@ -1148,12 +1151,15 @@ class Unparser:
         self.fill(lineno_node=t)
         self.write(self.maybe_colorize_python_keyword("type "))  # `type` is a soft keyword; only acts like a keyword in the `type` statement
         self.dispatch(t.name)
-        if t.type_params:
+        self.__type_params_helper(t)
+        self.write(" = ")
+        self.dispatch(t.value)
+
+    def __type_params_helper(self, t):
+        if getattr(t, "type_params", None):  # macro-generated nodes, and nodes in Python 3.11 and earlier, might not have it
             self.write("[")
             interleave(lambda: self.write(", "), self.dispatch, t.type_params)
             self.write("]")
-        self.write(" = ")
-        self.dispatch(t.value)
 
     def _TypeVar(self, t):
         # https://docs.python.org/3/library/typing.html#typing.TypeVar
-- 
2.43.0


From 2d7f446fcaafaad52b36c04271dca18241f283b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 08/47] fix: unparse a `with` whose only context manager is a
 tuple

---
 mcpyrate/unparser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 539278c..b1c18a2 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -605,7 +605,7 @@ class Unparser:
 
     def _With(self, t):
         self.fill(self.maybe_colorize_python_keyword("with "), lineno_node=t)
-        interleave(lambda: self.write(", "), self.dispatch, t.items)
+        self.__withitems_helper(t)
         self.enter()
         self.dispatch(t.body)
         self.leave()
@@ -613,11 +613,20 @@ class Unparser:
 
     def _AsyncWith(self, t):
         self.fill(self.maybe_colorize_python_keyword("async with "), lineno_node=t)
-        interleave(lambda: self.write(", "), self.dispatch, t.items)
+        self.__withitems_helper(t)
         self.enter()
         self.dispatch(t.body)
         self.leave()
 
+    def __withitems_helper(self, t):
+        # `with (a, b): ...` has two context managers, but `with ((a, b)): ...` has one, which is a tuple.
+        if len(t.items) == 1 and type(t.items[0].context_expr) is ast.Tuple and not t.items[0].optional_vars:
+            self.write("(")
+            self.dispatch(t.items[0])
+            self.write(")")
+        else:
+            interleave(lambda: self.write(", "), self.dispatch, t.items)
+
     # expr
     def _NamedExpr(self, t):  # Python 3.8+
         self.write("(")
-- 
2.43.0


From aedd3c613683ec2f91df111b02d0717014f6baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 09/47] fix: unparse negative and complex numbers in patterns

---
 mcpyrate/unparser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index b1c18a2..9ea567f 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1081,7 +1081,19 @@ class Unparser:
         self.leave()
 
     def _MatchValue(self, t):
-        self.dispatch(t.value)
+        self.__pattern_value_helper(t.value)
+
+    def __pattern_value_helper(self, v):
+        # In a pattern, a number may have a sign and an imaginary part, but no parentheses around the parts.
+        if type(v) is ast.BinOp:
+            self.__pattern_value_helper(v.left)
+            self.write(" " + self.binop[v.op.__class__.__name__] + " ")
+            self.__pattern_value_helper(v.right)
+        elif type(v) is ast.UnaryOp:
+            self.write(self.unop[v.op.__class__.__name__])
+            self.__pattern_value_helper(v.operand)
+        else:
+            self.dispatch(v)
 
     def _MatchSingleton(self, t):
         self.write(self.maybe_colorize(repr(t.value), ColorScheme.NAMECONSTANT))  # None, True or False.
@@ -1102,7 +1114,7 @@ class Unparser:
         self.write("{")
         def write_kp(item):
             k, p = item
-            self.dispatch(k)
+            self.__pattern_value_helper(k)
             self.write(": ")
             self.dispatch(p)
         interleave(lambda: self.write(", "), write_kp, zip(t.keys, t.patterns))
-- 
2.43.0


From 196e653fc1dd587de5f3d984e2483a0b266bae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 10/47] fix: parenthesize nested or-patterns and as-patterns
 when unparsing

---
 mcpyrate/unparser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 9ea567f..8157e31 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1151,16 +1151,21 @@ class Unparser:
                 self.write(t.name)
             else:
                 # The or-pattern usually doesn't use parentheses, but when named, they are useful.
-                if type(t.pattern) is ast.MatchOr:
-                    self.write("(")
-                self.dispatch(t.pattern)
-                if type(t.pattern) is ast.MatchOr:
-                    self.write(")")
+                self.__subpattern_helper(t.pattern)
                 self.write(" as ")
                 self.write(t.name)
 
     def _MatchOr(self, t):
-        interleave(lambda: self.write(" | "), self.dispatch, t.patterns)
+        interleave(lambda: self.write(" | "), self.__subpattern_helper, t.patterns)
+
+    def __subpattern_helper(self, t):
+        # Inside an or-pattern or an as-pattern, an or-pattern or an as-pattern needs parentheses.
+        parens = type(t) is ast.MatchOr or (type(t) is ast.MatchAs and t.pattern is not None)
+        if parens:
+            self.write("(")
+        self.dispatch(t)
+        if parens:
+            self.write(")")
 
     # Python 3.12+: `type` statement (type aliases)
     #     https://docs.python.org/3/library/ast.html#type-parameters
-- 
2.43.0


From 758e501ed1d5611f17011c658867ed7e6f725a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 11/47] fix: escape braces, backslashes and control characters
 when unparsing f-strings

---
 mcpyrate/unparser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 8157e31..5296500 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -858,7 +858,16 @@ class Unparser:
         def c(text):
             return self.maybe_colorize(text, ColorScheme.STRING)
         self.write(c("{"))
-        self.dispatch(t.value)
+        with io.StringIO() as output:
+            self.f, old_f = output, self.f
+            try:
+                self.dispatch(t.value)
+            finally:
+                self.f = old_f
+            value = output.getvalue()
+        if value.startswith("{"):  # `{{` would be an escaped brace
+            self.write(" ")
+        self.write(value)
         if t.conversion == 115:
             self.write(c("!s"))
         elif t.conversion == 114:
@@ -871,7 +880,7 @@ class Unparser:
             raise ValueError(f"Don't know how to unparse conversion code {t.conversion}")
         if t.format_spec:
             self.write(c(":"))
-            self._JoinedStr_helper(t.format_spec)
+            self._JoinedStr_helper(t.format_spec, in_format_spec=True)
         self.write(c("}"))
 
     def _JoinedStr(self, t):
@@ -879,9 +888,13 @@ class Unparser:
         self._JoinedStr_helper(t)
         self.write(self.maybe_colorize("'", ColorScheme.STRING))
 
-    def _JoinedStr_helper(self, t):
+    def _JoinedStr_helper(self, t, in_format_spec=False):
         def escape(s):
-            return s.replace("'", r"\'").replace("\n", r"\n")
+            # The double quote makes `repr` use single quotes, so that it escapes any single quotes in `s`.
+            s = repr('"' + s)[2:-1]
+            if in_format_spec:  # there, doubling a brace does not escape it
+                return s.replace("{", r"\x7b").replace("}", r"\x7d")
+            return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
             if type(v) is ast.Constant:
-- 
2.43.0


From c42629365090e97150e7195c7a394b3215ba7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 12/47] fix: rename also mapping pattern rests, class pattern
 attributes and type parameters

---
 mcpyrate/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..45560db 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -9,7 +9,7 @@ import ast
 from contextlib import contextmanager
 import uuid
 
-from .astcompat import MatchAs, MatchStar
+from .astcompat import MatchAs, MatchClass, MatchMapping, MatchStar, ParamSpec, TypeVar, TypeVarTuple
 from .colorizer import colorize, ColorScheme
 from . import markers
 from . import unparser
@@ -142,6 +142,14 @@ def rename(oldname, newname, tree):
             elif T in (MatchAs, MatchStar):  # Python 3.10+: `match`/`case` (pattern matching)
                 if tree.name == oldname:
                     tree.name = newname
+            elif T is MatchMapping:
+                if tree.rest == oldname:
+                    tree.rest = newname
+            elif T is MatchClass:
+                tree.kwd_attrs = [newname if attr == oldname else attr for attr in tree.kwd_attrs]
+            elif T in (TypeVar, ParamSpec, TypeVarTuple):  # Python 3.12+: type parameters
+                if tree.name == oldname:
+                    tree.name = newname
             # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.
             return self.generic_visit(tree)
     return Renamer().visit(tree)
-- 
2.43.0


From d72f7262cf6c31fbc8de048c145de2f3452a73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 13/47] fix: getdocstring does not return a constant that is
 not a string

---
 mcpyrate/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 45560db..2a10635 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -197,7 +197,9 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            if isinstance(docstring_node.value, str):
+                return docstring_node.value
+            return None  # some other constant, such as a number
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From 18bdea9da2a3ac1292bac972cd83bea2489f2c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 14/47] fix: scrub_uuid leaves alone suffixes that only look
 like a hexadecimal number to int()

---
 mcpyrate/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 2a10635..c17c27e 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -7,6 +7,7 @@ __all__ = ["gensym", "scrub_uuid", "flatten", "rename", "extract_bindings", "get
 
 import ast
 from contextlib import contextmanager
+from string import hexdigits
 import uuid
 
 from .astcompat import MatchAs, MatchClass, MatchMapping, MatchStar, ParamSpec, TypeVar, TypeVarTuple
@@ -56,13 +57,8 @@ def scrub_uuid(string):
     idx = string.rfind("_")
     if idx != -1:
         maybe_uuid = string[(idx + 1):]
-        if len(maybe_uuid) == 32:
-            try:
-                _ = int(maybe_uuid, base=16)
-            except ValueError:
-                pass
-            else:  # yes, it was an uuid
-                return string[:idx]
+        if len(maybe_uuid) == 32 and all(c in hexdigits for c in maybe_uuid):
+            return string[:idx]  # yes, it was an uuid
     return string
 
 
-- 
2.43.0


From b17b0bb92635cf9c0f3728031075e3ac2559baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 15/47] fix: future-imports after an empty docstring are
 recognized

---
 mcpyrate/coreutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..b3384d5 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,7 +266,7 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:  # the docstring may be empty
         docstring, *body = body
         docstring = [docstring]
     else:
-- 
2.43.0


From 78da336a4e38811133ca93683bb45c2fa75c1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 16/47] fix: split_futureimports recognizes the last
 future-import when nothing follows it

---
 mcpyrate/coreutils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index b3384d5..540bf47 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -272,13 +272,10 @@ def split_futureimports(body):
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
-    for k, bstmt in enumerate(body):
-        if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+    k = 0
+    while k < len(body) and isfutureimport(body[k]):
+        k += 1
+    return docstring, body[:k], body[k:]
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From 21de6815400eb7fbd4374d23b3f01797c8e444ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 17/47] fix: match_syspath picks the deepest syspath directory
 that contains the file

---
 mcpyrate/coreutils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 540bf47..85cfeed 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -57,15 +57,15 @@ def match_syspath(filename):
 
     If `filename` is not under any directory in `sys.path`, raises `ValueError`.
     """
-    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())
+    absolute_path = pathlib.Path(filename).expanduser().resolve()
+    absolute_filename = str(absolute_path)
     # Match deeper paths first; for readability, break ties lexicographically.
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
-    def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
+    def sortkey(p):
+        return -len(p.parts), str(p)
+    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):
+        if root_path == absolute_path or root_path in absolute_path.parents:
             return root_path
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
-- 
2.43.0


From 2280ff029b854cd4cc3449e321be58124475af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 18/47] fix: the bytecode cache cleaner does not follow or trip
 over symbolic links to directories

---
 mcpyrate/pycachecleaner.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..87ad88e 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -17,7 +17,7 @@ def getpycachedirs(path):
 
     paths = []
     for root, dirs, files in os.walk(path):
-        if "__pycache__" in dirs:
+        if "__pycache__" in dirs and not os.path.islink(os.path.join(root, "__pycache__")):
             paths.append(os.path.join(root, "__pycache__"))
     return paths
 
@@ -47,7 +47,10 @@ def _delete_directory_recursively(path):
 
         for x in dirs:
             try:
-                os.rmdir(os.path.join(root, x))
+                if os.path.islink(os.path.join(root, x)):  # remove the link, not what it points to
+                    os.unlink(os.path.join(root, x))
+                else:
+                    os.rmdir(os.path.join(root, x))
             except FileNotFoundError:
                 pass
 
-- 
2.43.0


From ae3422dee5ff8295a422cb8a3d94ae75486342a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 19/47] fix: splice_statements accepts a single AST node as the
 template

---
 mcpyrate/splicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 7ff3e19..691c93c 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -132,7 +132,7 @@ def splice_statements(body, template, tag="__paste_here__"):
     if isinstance(body, ast.AST):
         body = [body]
     if isinstance(template, ast.AST):
-        body = [template]
+        template = [template]
     if not body:
         raise ValueError("expected at least one statement in `body`")
     if not template:
-- 
2.43.0


From 3469db3e8c9ee3fd527a3d8ff2cdd7f362167036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 20/47] fix: the combined module docstring made by
 splice_dialect is a statement

---
 mcpyrate/splicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 691c93c..9ba80a8 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -266,7 +266,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
         template_doc = getdocstring(template_docstring)
         sep = "\n" + ("-" * 79) + "\n"
         new_doc = user_doc + sep + template_doc
-        new_docstring = ast.copy_location(ast.Constant(value=new_doc),
+        new_docstring = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Constant(value=new_doc),
+                                                                           user_docstring[0])),
                                           user_docstring[0])
         docstring = [new_docstring]
     else:
-- 
2.43.0


From ee2cdfb80072e8fe2efc138e4ffa841a2cd49034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 21/47] fix: AST walkers honor a subtree state that has no
 bindings

---
 mcpyrate/walkers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 248653f..af24eac 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -137,8 +137,8 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start visiting `tree`. **Do not override this method; see `examine` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -147,7 +147,7 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
                 return
             return self.examine(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
@@ -178,8 +178,8 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start transforming `tree`. **Do not override this method; see `transform` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -190,7 +190,7 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
                 return tree
             return self.transform(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
-- 
2.43.0


From a29ccfd6e77b2ea527d63d7d4eaf3fc6a4125a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 22/47] fix: delete_markers handles a marker whose content was
 deleted

---
 mcpyrate/markers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/markers.py b/mcpyrate/markers.py
index 6f073d8..d9330c9 100644
--- a/mcpyrate/markers.py
+++ b/mcpyrate/markers.py
@@ -63,6 +63,8 @@ def delete_markers(tree, cls=ASTMarker):
     class ASTMarkerDeleter(walkers.ASTTransformer):
         def transform(self, tree):
             if isinstance(tree, cls):
+                if tree.body is None:  # nothing there, e.g. a macro deleted the code
+                    return None
                 return self.visit(tree.body)
             return self.generic_visit(tree)
     return ASTMarkerDeleter().visit(tree)
-- 
2.43.0


From 772f26c15c7d6efd061b857a550be5981833efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 23/47] fix: MacroCollector no longer rejects ordinary code
 such as `f()[0]`

---
 mcpyrate/expander.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 31b1727..cfb289f 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -440,8 +440,11 @@ class MacroCollector(NodeVisitor):
 
     def visit_Subscript(self, subscript):
         candidate = subscript.value
-        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
+        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename,
+                                                     _validate_call_syntax=False)
         if self.expander.ismacrocall(macroname, macroargs, "expr"):
+            # Now we know it's a macro invocation, so we can validate the parenthesis syntax to pass arguments.
+            macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
             key = (macroname, "expr")
             if key not in self._seen:
                 self.collected.append(key)
-- 
2.43.0


From a7a5372757e89a47bc3c678c45b97c993034ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 24/47] fix: splice_dialect output compiles when both template
 and user code have future-imports

---
 mcpyrate/splicing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 9ba80a8..2d35d2a 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -273,6 +273,10 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     else:
         docstring = user_docstring or template_docstring
 
+    # Python rejects a future-import that is on a later line than the last one of them.
+    if user_futureimports:
+        for stmt in template_futureimports:
+            fix_locations(stmt, user_futureimports[-1], mode="overwrite")
     futureimports = template_futureimports + user_futureimports
 
     def extract_magic_all(tree):
-- 
2.43.0


From d7be62a1db7510dd4627079a1332d1c6f8a7d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 25/47] fix: dump infinite floats in a form that can be
 evaluated

---
 mcpyrate/astdumper.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mcpyrate/astdumper.py b/mcpyrate/astdumper.py
index d4b8a67..4f3146d 100644
--- a/mcpyrate/astdumper.py
+++ b/mcpyrate/astdumper.py
@@ -8,11 +8,15 @@ Based on Alex Leone's `astpp.py`, with changes to indentation logic.
 __all__ = ["dump"]
 
 from ast import AST, iter_fields
+import sys
 
 from .colorizer import colorize, ColorScheme
 
 NoneType = type(None)
 
+# Large float and imaginary literals get turned into infinities in the AST.
+INFSTR = "1e" + repr(sys.float_info.max_10_exp + 1)
+
 def dump(tree, *, include_attributes=False, multiline=True, color=False):
     """Return a formatted dump of `tree`, as a string.
 
@@ -76,6 +80,9 @@ def dump(tree, *, include_attributes=False, multiline=True, color=False):
                 return separator().join(items)
             return "[]"
 
+        if type(tree) in (float, complex):
+            # Represent infinity as an overflowing decimal literal, so that the dump can be evaluated.
+            return repr(tree).replace("inf", INFSTR)
         return repr(tree)
 
     if not isinstance(tree, (AST, list)):
-- 
2.43.0


From 29f7c8d1b3d2b0aab72484491dadb2e3066a3854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 26/47] fix: complex constants can be quoted and unquoted

---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..0c3bec7 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -714,7 +714,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From c4970222d77c790fcba61facffcbcbec02b3ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 27/47] fix: splice list-valued ast-unquotes wherever they
 appear in the quoted tree

---
 mcpyrate/quotes.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 0c3bec7..5179a87 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -223,16 +223,13 @@ def splice_ast_literals(tree, filename):
                     doit(item)
                     newthing.append(item)
             thing[:] = newthing
-        # As of Python 3.9, `Global` and `Nonlocal` are the only AST node types
-        # where a field contains a `list` of bare strings.
-        elif isinstance(thing, (ast.Global, ast.Nonlocal)):
-            pass
         elif isinstance(thing, ast.AST):
             for fieldname, value in ast.iter_fields(thing):
-                if isinstance(value, list):
-                    doit(value)
-        else:
-            raise TypeError(f"Expected `list` or AST node, got {type(thing)} with value {repr(thing)}")
+                doit(value)
+        # Anything else is a bare value in some field of an AST node; e.g. the names
+        # in `ast.Global`, or the `None` that stands for the `**` in `ast.Dict.keys`.
+    if not isinstance(tree, (list, ast.AST)):
+        raise TypeError(f"Expected `list` or AST node, got {type(tree)} with value {repr(tree)}")
     doit(tree)
 
     try:
-- 
2.43.0


From 22a53fe58b1c915924af9117bb28195e9fd4515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 28/47] fix: lookup_value never returns the value of an
 earlier, already deleted capture

---
 mcpyrate/quotes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 5179a87..68193be 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -332,8 +332,10 @@ def lookup_value(key):
 
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
-    return _lookup_cache[cachekey]
+        # Keep also `frozen_value` alive, so that its `id` cannot be recycled for another capture.
+        _lookup_cache[cachekey] = (pickle.loads(frozen_value), frozen_value)
+    value, _ = _lookup_cache[cachekey]
+    return value
 
 
 def capture_macro(macro, name):
-- 
2.43.0


From da61f18f21a4d52e668d871703f741c22230a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 29/47] fix: fix_ctx gives the right ctx to nodes shared
 between positions that need different ones

---
 mcpyrate/astfixers.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 78545f8..e6ff011 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -3,9 +3,9 @@
 
 __all__ = ["fix_ctx", "fix_locations"]
 
-from ast import (AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
+from ast import (AST, AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
                  Delete, For, Load, Store, Subscript, comprehension,
-                 iter_child_nodes, withitem)
+                 iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
 from .astcompat import NamedExpr, TypeAlias
@@ -101,9 +101,35 @@ def fix_ctx(tree, *, copy_seen_nodes):
 
     Modifies `tree` in-place. For convenience, returns the modified `tree`.
     """
+    if copy_seen_nodes:
+        _unshare(tree)
     return _CtxFixer(copy_seen_nodes=copy_seen_nodes).visit(tree)
 
 
+def _unshare(tree):
+    """Shallow-copy each node instance in `tree` the second and further times it is encountered.
+
+    The copy gets its own copies of any `list`s in its fields. Modifies `tree` in-place.
+    """
+    seen = set()
+    def visit(node):
+        if not isinstance(node, AST) or not node._fields:  # bare value; `Load`, `Add`, ...
+            return node
+        if id(node) in seen:
+            node = copy(node)
+        seen.add(id(node))
+        for fieldname, value in iter_fields(node):
+            if isinstance(value, list):
+                setattr(node, fieldname, [visit(elt) for elt in value])
+            elif isinstance(value, AST):
+                setattr(node, fieldname, visit(value))
+        return node
+    if isinstance(tree, list):
+        tree[:] = [visit(elt) for elt in tree]
+    else:
+        visit(tree)
+
+
 def fix_locations(tree, reference_node, *, mode):
     """Like `ast.fix_missing_locations`, but customized for a macro expander.
 
-- 
2.43.0


From c4a1c448061bfa0fac75a7d7908f527cf300dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 30/47] fix: multiphase_expand restores sys.modules also when
 it fails

---
 mcpyrate/multiphase.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..6c8c329 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -346,10 +346,6 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
 
     Return value is the final phase-0 `tree`, after macro expansion.
     """
-    n = detect_highest_phase(tree, filename=filename)
-    debug = isdebug(tree)
-    c, CS = setcolor, ColorScheme
-
     # If this module is already in `sys.modules` (e.g. created by Python's
     # import system as a blank module instance, to be filled in by an exec
     # after compilation is done), record the original module object, so we
@@ -359,6 +355,25 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     else:
         original_module = None
 
+    try:
+        return _multiphase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander)
+    finally:
+        # restore `sys.modules` to how it was before we began the multi-phase compile for this module
+        if original_module:
+            sys.modules[self_module] = original_module
+        else:
+            try:
+                del sys.modules[self_module]
+            except KeyError:
+                pass
+
+
+def _multiphase_expand(tree, *, filename, self_module, dexpander):
+    """The actual work of `multiphase_expand`. The caller restores `sys.modules`."""
+    n = detect_highest_phase(tree, filename=filename)
+    debug = isdebug(tree)
+    c, CS = setcolor, ColorScheme
+
     if debug:
         print(f"{c(CS.HEADING1)}**Multi-phase compiling module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
 
@@ -402,13 +417,4 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
             compiler.run(phase_k_tree, module)
 
-    # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-    if original_module:
-        sys.modules[self_module] = original_module
-    else:
-        try:
-            del sys.modules[self_module]
-        except KeyError:
-            pass
-
     return expansion
-- 
2.43.0


From fa6f338ae332aa85637033ec518c679591000faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 31/47] fix: `with phase[True]` is not a phase block

---
 mcpyrate/multiphase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 6c8c329..77e6836 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -65,7 +65,7 @@ def iswithphase(stmt, *, filename):
     else:
         return False
 
-    if not isinstance(n, int) or n < 1:
+    if type(n) is not int or n < 1:  # note `True` is an `int` instance, but not an integer literal
         return False
 
     return n
-- 
2.43.0


From c8e34ee52e151feeab7ec3281c800d17eca4bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 32/47] fix: detect_highest_phase returns None when there are
 no phase blocks

---
 mcpyrate/multiphase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 77e6836..84dcd49 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -259,7 +259,7 @@ def detect_highest_phase(tree, *, filename):
     maxn = None
     for stmt in tree.body:
         n = iswithphase(stmt, filename=filename)
-        if maxn is None or (n is not None and n > maxn):
+        if n and (maxn is None or n > maxn):
             maxn = n
     return maxn
 
@@ -389,7 +389,7 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander):
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
-    for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
+    for k in range(n or 0, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
             print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
 
-- 
2.43.0


From 369b3a0cc7e564a4795dc846311cac76c5b1ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:45 +0000
Subject: [PATCH 33/47] fix: temporary_module removes exactly the module it
 created

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..0916ad5 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -569,8 +569,9 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    module = create_module(dotted_name, filename, update_parent=update_parent)
+    dotted_name = module.__name__  # may have been autogenerated
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
         try:
-- 
2.43.0


From e5a29be41ff46754d585bdb75cd931b991f3f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 34/47] fix: a macro-import cache file with missing entries is
 ignored

---
 mcpyrate/importer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..4907b62 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -139,14 +139,13 @@ def path_stats(path, _stats_cache=None):
         with open(macroimport_cache_path, "rb") as importcachefile:
             data = pickle.load(importcachefile)
         if data["st_mtime_ns"] == stat_result.st_mtime_ns:
+            macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
+            has_relative_macroimports = data["has_relative_macroimports"]
             macroimport_cache_valid = True
     except Exception:
         pass
 
-    if macroimport_cache_valid:
-        macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
-        has_relative_macroimports = data["has_relative_macroimports"]
-    else:
+    if not macroimport_cache_valid:
         # This can be slow, the point of `.pyc` is to avoid the parse-and-compile cost.
         # We do save the macro-expansion cost, though, and that's likely much more expensive.
         #
-- 
2.43.0


From ad9bf3b00aaf63b4d0d75c54f1caf8965f2db81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 35/47] fix: path_stats handles a cycle in the macro-dependency
 graph

---
 mcpyrate/importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 4907b62..3df2a71 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -194,6 +194,10 @@ def path_stats(path, _stats_cache=None):
         except (ValueError, ImportError) as err:
             raise ImportError(f"while resolving absolute package name of {path}, which uses relative macro-imports") from err
 
+    # If the dependency graph has a cycle, we will get back here. The dependencies of `path`
+    # are already being considered, so then only the mtime of `path` itself matters.
+    _stats_cache[path] = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": None}
+
     mtimes = []
     for macroimport in macro_and_dialect_imports:
         if macroimport.module is None:
-- 
2.43.0


From 1f3ce5e7db28a1730e11a6be6014f6bba28c6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 36/47] fix: path_stats handles macro-imports from modules that
 have no Python source file

---
 mcpyrate/importer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 3df2a71..14b5b99 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -206,11 +206,17 @@ def path_stats(path, _stats_cache=None):
             raise SyntaxError(f"{loc}\nmissing module name in macro-import")
         module_absname = importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)
 
-        spec = importlib.util.find_spec(module_absname)
-        if spec:  # self-macro-imports have no `spec`, and that's fine.
+        try:
+            spec = importlib.util.find_spec(module_absname)
+        except ValueError:  # the module is in `sys.modules`, but was created dynamically
+            spec = None
+        if spec and spec.has_location:  # self-macro-imports have no `spec`, and that's fine. Builtin modules have no file.
             origin = spec.origin
-            stats = path_stats(origin, _stats_cache)
-            mtimes.append(stats["mtime"])
+            if origin.endswith(".py"):
+                stats = path_stats(origin, _stats_cache)
+                mtimes.append(stats["mtime"])
+            else:  # extension module, or bytecode without source
+                mtimes.append(os.stat(origin).st_mtime_ns * 1e-9)
 
     mtime = stat_result.st_mtime_ns * 1e-9
     # size = stat_result.st_size
-- 
2.43.0


From 8268ae0db57cb9960bc40a531884e443568d32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 37/47] fix: a dialect-import in source text ends at the end of
 its line

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..29e94dd 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\\n]+)\s*$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From 5f1a4fbc8cce5862001c05c9284254d764a3d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 38/47] fix: files using new surface syntax from a
 source-transforming dialect can be imported

---
 mcpyrate/importer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 14b5b99..f86c512 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -13,6 +13,7 @@ import tokenize
 
 from . import compiler
 from .coreutils import resolve_package, ismacroimport
+from .dialects import _dialectimport
 from .multiphase import iswithphase
 from .unparser import unparse_with_fallbacks
 from .utils import format_location
@@ -154,7 +155,15 @@ def path_stats(path, _stats_cache=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            tree = ast.parse(sourcefile.read(), filename=path)
+            text = sourcefile.read()
+        try:
+            tree = ast.parse(text, filename=path)
+        except SyntaxError:
+            # A dialect that has a source transformer may introduce new surface syntax.
+            # Then all we can see at this point are the dialect-imports.
+            tree = ast.parse("\n".join(match.group(0).strip() for match in _dialectimport.finditer(text)))
+            if not tree.body:
+                raise
 
         macroimports = []
         dialectimports = []
-- 
2.43.0


From 7eec1cedfa1d66dc445f7bc925743cae62fbc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:35 +0000
Subject: [PATCH 39/47] fix: multiphase_expand: reinstate also a falsey
 original sys.modules entry

---
 mcpyrate/multiphase.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 84dcd49..ca8ec43 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -350,16 +350,16 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # import system as a blank module instance, to be filled in by an exec
     # after compilation is done), record the original module object, so we
     # can reinstate it once we're done.
-    if self_module in sys.modules:
-        original_module = sys.modules[self_module]
-    else:
-        original_module = None
+    #
+    # The entry may also be something falsey; e.g. `None`, which blocks importing that module.
+    has_original_module = self_module in sys.modules
+    original_module = sys.modules.get(self_module)
 
     try:
         return _multiphase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander)
     finally:
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-        if original_module:
+        if has_original_module:
             sys.modules[self_module] = original_module
         else:
             try:
-- 
2.43.0


From e36efcdeca222baaca9a90c57565c1ef1708004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:35 +0000
Subject: [PATCH 40/47] fix: multiphase_expand: support also an empty module
 body

---
 mcpyrate/multiphase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index ca8ec43..3d52a5c 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -394,7 +394,7 @@ def _multiphase_expand(tree, *, filename, self_module, dexpander):
             print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
 
         phase_k_tree = extract_phase(tree, filename=filename, phase=k)
-        if phase_k_tree.body:
+        if phase_k_tree.body or k == 0:
             # inject `__phase__ = k` for introspection (at run time of the phase being compiled now)
             tgt = ast.Name(id="__phase__", ctx=ast.Store(), lineno=1, col_offset=1)
             val = ast.Constant(value=k, lineno=1, col_offset=13)
-- 
2.43.0


From c6bb4d95fef707be280fb02e8e368a195f157d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 41/47] fix: temporary_module: clean up the parent package even
 if the sys.modules entry is already gone

---
 mcpyrate/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 0916ad5..da968fc 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -574,9 +574,9 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     try:
         yield module
     finally:
+        # The code in the `with` body may have already removed the `sys.modules` entry.
+        sys.modules.pop(dotted_name, None)
         try:
-            del sys.modules[dotted_name]
-
             # The standard importer doesn't do this, but it seems nice for symmetry,
             # considering the use case.
             if update_parent and dotted_name.find(".") != -1:
-- 
2.43.0


From 0e70d59d23ed87a1c9ce4c5d8c285e190a0add52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:16 +0000
Subject: [PATCH 42/47] fix: extract_phase: lift also a block declared as
 phase[n,]

---
 mcpyrate/multiphase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 3d52a5c..78d5937 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -110,6 +110,8 @@ def extract_phase(tree, *, filename, phase=0):
                 macroarg = withphase.items[0].context_expr.slice
             else:
                 macroarg = withphase.items[0].context_expr.slice.value
+            if type(macroarg) is ast.Tuple:  # `with phase[n,]`
+                macroarg = macroarg.elts[0]
 
             if type(macroarg) is ast.Constant:
                 macroarg.value -= 1
-- 
2.43.0


From a23d87b49a1701b19a903cc4a27a03a5feea6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 43/47] fix: step_expansion in dump mode accepts whatever a
 macro may return

---
 mcpyrate/debug.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/debug.py b/mcpyrate/debug.py
index 1c55fed..7b7b01e 100644
--- a/mcpyrate/debug.py
+++ b/mcpyrate/debug.py
@@ -91,7 +91,10 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
             raise ValueError(f"unknown argument {repr(v)}")
 
         if v == "dump":
-            formatter = functools.partial(dump, include_attributes=True, color=True)
+            def formatter(tree):
+                if not isinstance(tree, (ast.AST, list)):  # a macro may return also `None` or any iterable of AST nodes
+                    return repr(tree)
+                return dump(tree, include_attributes=True, color=True)
         elif v == "detailed":
             print_details = True
 
-- 
2.43.0


From 64e85fdfb6cb122d3803a9ce5894df9f38ee6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 44/47] fix: expand_first accepts the names of identifier
 macros

---
 mcpyrate/metatools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..3560ea7 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -503,7 +503,10 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     # We must use the full `bindings`, not only those of the quasiquote operators
     # (see `mcpyrate.quotes._expand_quasiquotes`), so that the expander recognizes
     # which hygienic captures are macros.
-    args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)
+    #
+    # A bare name needs no expanding. If it is the name of an identifier macro, that must not be invoked here.
+    args_expander = MacroExpander(expander.bindings, filename=expander.filename)
+    args = [node if type(node) is ast.Name else args_expander.visit(node) for node in args]
 
     # In the arguments, we should now have `Name` nodes only.
     invalid_args = [node for node in args if type(node) is not ast.Name]
-- 
2.43.0


From d555d3ed075e28dff8105ffb05d3fc9b48694ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 45/47] fix: expand_first accepts a hygienically captured macro
 given as q[h[macro]]

---
 mcpyrate/metatools.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 3560ea7..1d5032a 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -48,7 +48,8 @@ from .astfixers import fix_locations  # noqa: F401, used in macro output.
 from .coreutils import _mcpyrate_attr
 from .debug import step_expansion  # noqa: F401, used in macro output.
 from .expander import MacroExpander, namemacro, parametricmacro
-from .quotes import astify, capture_value, q, unastify
+from .quotes import (astify, capture_value, is_captured_macro, lookup_macro,
+                     q, unastify)
 from .unparser import unparse_with_fallbacks
 from .utils import extract_bindings
 
@@ -506,7 +507,17 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     #
     # A bare name needs no expanding. If it is the name of an identifier macro, that must not be invoked here.
     args_expander = MacroExpander(expander.bindings, filename=expander.filename)
-    args = [node if type(node) is ast.Name else args_expander.visit(node) for node in args]
+    def resolve(node):
+        if type(node) is ast.Name:
+            return node
+        node = args_expander.visit(node)
+        # `q[h[somemacro]]` has now become the run-time part of `q`, applied to a captured macro.
+        if type(node) is ast.Call and unparse_with_fallbacks(node.func) == "mcpyrate.quotes.splice_ast_literals":
+            key = is_captured_macro(node.args[0])
+            if key:
+                return lookup_macro(key)
+        return node
+    args = [resolve(node) for node in args]
 
     # In the arguments, we should now have `Name` nodes only.
     invalid_args = [node for node in args if type(node) is not ast.Name]
-- 
2.43.0


From d475ed46bc20888d4ad8b88e3a46cb088a31f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 46/47] fix: block mode of expand1sq and expandsq

---
 mcpyrate/metatools.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1d5032a..1f90aa7 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -185,10 +185,15 @@ def expand1sq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expand1sq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:  # the asname was meant for `q`, `expand1s` doesn't take it.
-        kw["optional_vars"] = None
-    return expand1s(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expand1s(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        kw = dict(kw)
+        kw["optional_vars"] = None  # the asname was meant for `q`, `expand1s` doesn't take it.
+        tree.value = expand1s(tree.value, syntax="expr", **kw)  # the quoted block is an expression now
+        return tree
 
 
 def expandsq(tree, *, syntax, **kw):
@@ -213,10 +218,15 @@ def expandsq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expandsq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:
-        kw["optional_vars"] = None
-    return expands(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expands(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        kw = dict(kw)
+        kw["optional_vars"] = None  # the asname was meant for `q`, `expands` doesn't take it.
+        tree.value = expands(tree.value, syntax="expr", **kw)  # the quoted block is an expression now
+        return tree
 
 
 def expand1s(tree, *, syntax, expander, **kw):
@@ -253,7 +263,8 @@ def expand1s(tree, *, syntax, expander, **kw):
     # without wrapping the result with `Done`, is that after `q` has finished, the output
     # will be a **quoted** AST, so macro invocations in it don't look like macro invocations.
     # Hence upon looping on the output, the expander finds no more macros.
-    return q(tree.body, syntax=syntax, expander=expander, **kw)
+    # If all statements of a block disappeared, what remains is an empty block.
+    return q(tree.body if tree.body is not None else [], syntax=syntax, expander=expander, **kw)
 
 
 def expands(tree, *, syntax, expander, **kw):
@@ -282,7 +293,8 @@ def expands(tree, *, syntax, expander, **kw):
     # another macro invocation that uses `visit_once` (which sets the expander
     # mode to non-recursive for the dynamic extent of the `visit_once`).
     tree = expander.visit_recursively(unastify(tree.body))  # On wrong kind of input, `unastify` will `TypeError` for us.
-    return q(tree, syntax=syntax, expander=expander, **kw)
+    # If all statements of a block disappeared, what remains is an empty block.
+    return q(tree if tree is not None else [], syntax=syntax, expander=expander, **kw)
 
 # --------------------------------------------------------------------------------
 
-- 
2.43.0


From ab93a2a9060a197f09c6aacafe55874a85decf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 47/47] fix: splice_dialect accepts a module body that has only
 a docstring and imports

---
 mcpyrate/splicing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 2d35d2a..b621a10 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -256,6 +256,7 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     for stmt in template:
         fix_locations(stmt, srcloc_dummynode, mode="overwrite")
 
+    firststmt = body[0]
     user_docstring, user_futureimports, body = split_futureimports(body)
     template_docstring, template_futureimports, template = split_futureimports(template)
 
@@ -313,6 +314,11 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     body, user_dialect_imports = extract_macroimports(body, magicname="dialects")
     body, user_macro_imports = extract_macroimports(body)
 
+    # If nothing remains to paste, the paste-here indicator must still go away,
+    # and the block it is in must not become empty.
+    if not body:
+        body = [ast.copy_location(ast.Pass(), firststmt)]
+
     finalbody = splice_statements(body, template, tag)
     return (docstring +
             futureimports +
-- 
2.43.0

