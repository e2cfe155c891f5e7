From f3288e3f0454caa8f84a248acbbc4c6c9b74a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 01/62] fix: keep '**' as two pointer levels and '::' after a
 template instance when parsing types

---
 pybindgen/typehandlers/ctypeparser/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index 5c05ebc..d7f9043 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -130,10 +130,12 @@ def _parse_type_recursive(tokens):
     ctype = CType()
     while tokens:
         token = tokens.pop(0)
-        if token.name.startswith('::'):
+        if token.name.startswith('::') and not (ctype.tokens and isinstance(ctype.tokens[-1], tokenizer.Token)
+                                                and ctype.tokens[-1].name == '>'):
+            ## a leading :: is redundant, unless it selects a member of a template instance
             token.name = token.name[2:]
         if token.token_type == tokenizer.SYNTAX:
-            if token.name in [ '>>' ]:
+            if token.name in [ '>>', '**' ]:
                 tokens.insert(0, tokenizer.Token(tokenizer.SYNTAX, token.name[0], None, None))
                 tokens.insert(0, tokenizer.Token(tokenizer.SYNTAX, token.name[0], None, None))
                 continue
-- 
2.43.0


From 865f1d93f607673104620483d5beebd579474aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 02/62] fix: follow both aliases of a type name when looking up
 its handler

---
 pybindgen/typehandlers/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 528d15c..23d4a43 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1401,7 +1401,10 @@ class TypeMatcher(object):
                 #if 'Time' in name or 'Time' in alias:
                 #    import sys
                 #    print >> sys.stderr, "**** trying name %r in place of %r" % (alias, name)
-                return self._raw_lookup_with_alias_support_recursive(alias, already_tried)
+                try:
+                    return self._raw_lookup_with_alias_support_recursive(alias, already_tried)
+                except KeyError:
+                    continue # dead end; maybe the other alias leads somewhere
             raise KeyError
 
     def lookup(self, name):
-- 
2.43.0


From 9baf88bd12e4b31a593a1045d68f153ddbcb29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 03/62] fix: never hand out a variable name that is already in
 use

---
 pybindgen/typehandlers/base.py | 36 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 23d4a43..b05e29c 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -459,6 +459,19 @@ class DeclarationsScope(object):
         self._declarations = codesink.MemoryCodeSink()
         self.declared_variables.clear()
 
+    def _allocate_name(self, name):
+        """Get a variable name that is not yet in use, based on the given name"""
+        num = self.declared_variables.get(name, 0) + 1
+        varname = name
+        if num > 1:
+            varname = "%s%i" % (name, num)
+            while varname in self.declared_variables:
+                num += 1
+                varname = "%s%i" % (name, num)
+            self.declared_variables[varname] = 1
+        self.declared_variables[name] = num
+        return varname
+
     def declare_variable(self, type_, name, initializer=None, array=None):
         """Add code to declare a variable. Returns the actual variable
         name used (uses 'name' as base, with a number in case of conflict.)
@@ -469,16 +482,7 @@ class DeclarationsScope(object):
         :param initializer: optional, value to initialize the variable with
         :param array: optional, array size specifiction, e.g. '[]', or '[100]'
         """
-        try:
-            num = self.declared_variables[name]
-        except KeyError:
-            num = 0
-        num += 1
-        self.declared_variables[name] = num
-        if num == 1:
-            varname = name
-        else:
-            varname = "%s%i" % (name, num)
+        varname = self._allocate_name(name)
         decl = join_ctype_and_name(type_, varname)
         if array is not None:
             decl += array
@@ -493,17 +497,7 @@ class DeclarationsScope(object):
         :param name: base name of the variable; actual name used can be
                 slightly different in case of name conflict.
         """
-        try:
-            num = self.declared_variables[name]
-        except KeyError:
-            num = 0
-        num += 1
-        self.declared_variables[name] = num
-        if num == 1:
-            varname = name
-        else:
-            varname = "%s%i" % (name, num)
-        return varname
+        return self._allocate_name(name)
 
     def get_code_sink(self):
         """Returns the internal MemoryCodeSink that holds all declararions."""
-- 
2.43.0


From 709f7844685e74098194215dc3bd4bf0c9635eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 04/62] fix: keep ctype_no_const_no_ref in step when the type's
 target is made const

---
 pybindgen/typehandlers/ctypeparser/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/typehandlers/ctypeparser/__init__.py b/pybindgen/typehandlers/ctypeparser/__init__.py
index d7f9043..0445ea0 100644
--- a/pybindgen/typehandlers/ctypeparser/__init__.py
+++ b/pybindgen/typehandlers/ctypeparser/__init__.py
@@ -378,3 +378,5 @@ class TypeTraits(object):
                 elif token.name in ['*', '&']:
                     tokens.insert(token_i, tokenizer.Token(tokenizer.NAME, "const", None, None))
                     break
+        self.ctype_no_const_no_ref = self.ctype_no_const.clone()
+        self.ctype_no_const_no_ref.remove_outer_modifier("&")
-- 
2.43.0


From 903ff53ff73cce827efdba76d804d9eb6c1d8470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 05/62] fix: check both ends of the range of 8 and 16 bit
 integers

The by-value handlers only checked the upper end (int8_t returns: the wrong
bounds), so negative values were silently wrapped.
---
 pybindgen/typehandlers/inttype.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index d8f953e..ca24710 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -256,7 +256,7 @@ class UInt16Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xffff' % tmp_var,
+        wrapper.after_call.write_error_check('%s < 0 || %s > 0xffff' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -297,7 +297,7 @@ class UInt16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xffff' % name,
+        wrapper.before_call.write_error_check('%s < 0 || %s > 0xffff' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -336,7 +336,7 @@ class Int16Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7fff' % name,
+        wrapper.before_call.write_error_check('%s < -0x8000 || %s > 0x7fff' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -375,7 +375,7 @@ class UInt8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xff' % name,
+        wrapper.before_call.write_error_check('%s < 0 || %s > 0xff' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -411,7 +411,7 @@ class UInt8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xff' % tmp_var,
+        wrapper.after_call.write_error_check('%s < 0 || %s > 0xff' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -432,7 +432,7 @@ class Int8Param(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7f' % name,
+        wrapper.before_call.write_error_check('%s < -0x80 || %s > 0x7f' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -466,7 +466,7 @@ class Int8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 128 || %s < -127' % (tmp_var, tmp_var),
+        wrapper.after_call.write_error_check('%s < -0x80 || %s > 0x7f' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
-- 
2.43.0


From 6b5d9ebbfdb1aafa77d1f3f679328b541c85e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 06/62] fix: accept negative values for int8_t& and int8_t*
 parameters

They were parsed with the format 'b', which takes 0..255.
---
 pybindgen/typehandlers/inttype.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index ca24710..fc2ee33 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -446,13 +446,21 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name + "_tmp")
+            wrapper.parse_params.add_parameter("i", ["&"+tmp_var], self.name)
+            wrapper.after_call.write_error_check('%s < -0x80 || %s > 0x7f' % (tmp_var, tmp_var),
+                                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.after_call.write_code("%s = %s;" % (self.value, tmp_var))
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name + "_tmp")
+            wrapper.parse_params.add_parameter('i', ['&'+tmp_var], self.name)
+            wrapper.before_call.write_error_check('%s < -0x80 || %s > 0x7f' % (tmp_var, tmp_var),
+                                                  'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.before_call.write_code("%s = %s;" % (name, tmp_var))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -695,13 +703,21 @@ class Int8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name + "_tmp")
+            wrapper.parse_params.add_parameter("i", ["&"+tmp_var], self.name)
+            wrapper.after_call.write_error_check('%s < -0x80 || %s > 0x7f' % (tmp_var, tmp_var),
+                                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.after_call.write_code("*%s = %s;" % (self.value, tmp_var))
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('int8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            tmp_var = wrapper.declarations.declare_variable("int", self.name + "_tmp")
+            wrapper.parse_params.add_parameter('i', ['&'+tmp_var], self.name)
+            wrapper.before_call.write_error_check('%s < -0x80 || %s > 0x7f' % (tmp_var, tmp_var),
+                                                  'PyErr_SetString(PyExc_ValueError, "Out of range");')
+            wrapper.before_call.write_code("%s = %s;" % (name, tmp_var))
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
-- 
2.43.0


From ac2e15653ef352c019c4fd492ea369b401803c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 07/62] fix: pass addresses for the output reference parameters
 of virtual methods

The reverse wrappers passed the value of the reference to PyArg_ParseTuple,
which wrote to an arbitrary address.
---
 pybindgen/typehandlers/doubletype.py |  2 +-
 pybindgen/typehandlers/floattype.py  |  2 +-
 pybindgen/typehandlers/inttype.py    | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 6c589ed..74cc912 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -68,7 +68,7 @@ class DoubleRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('d', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("d", [self.value], self.name)
+            wrapper.parse_params.add_parameter("d", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index d51711f..dc08df4 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -113,7 +113,7 @@ class FloatRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('f', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("f", [self.value], self.name)
+            wrapper.parse_params.add_parameter("f", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index fc2ee33..c1dbdc1 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -212,7 +212,7 @@ class IntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('i', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("i", [self.value], self.name)
+            wrapper.parse_params.add_parameter("i", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -233,7 +233,7 @@ class UnsignedIntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('I', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("I", [self.value], self.name)
+            wrapper.parse_params.add_parameter("I", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -311,7 +311,7 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", [self.value], self.name)
+            wrapper.parse_params.add_parameter("H", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -351,7 +351,7 @@ class Int16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('h', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("h", [self.value], self.name)
+            wrapper.parse_params.add_parameter("h", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -389,7 +389,7 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            wrapper.parse_params.add_parameter("B", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
-- 
2.43.0


From a7e6f4dae25f04bd24aa94b082c8b4eae18ae2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 08/62] fix: report the errors of the truth test of bool
 parameters

The result of PyObject_IsTrue was used without looking for errors: the wrapped
function ran with 'true', and its result came with an exception set.
---
 pybindgen/typehandlers/booltype.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 5fadd2d..24f136d 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -24,8 +24,10 @@ class BoolParam(Parameter):
         wrapper.parse_params.add_parameter('O', ['&'+py_name], self.value, optional=(self.default_value is not None))
         if self.default_value:
             wrapper.before_call.write_code("%s = %s? (bool) PyObject_IsTrue(%s) : %s;" % (name, py_name, py_name, self.default_value))
+            wrapper.before_call.write_error_check("PyErr_Occurred()")
         else:
             wrapper.before_call.write_code("%s = (bool) PyObject_IsTrue(%s);" % (name, py_name))
+            wrapper.before_call.write_error_check("PyErr_Occurred()")
         wrapper.call_params.append(name)
 
 
@@ -41,6 +43,7 @@ class BoolReturn(ReturnValue):
         wrapper.parse_params.add_parameter("O", ["&"+py_name], prepend=True)
         wrapper.after_call.write_code(
             "%s = PyObject_IsTrue(%s);" % (self.value, py_name))
+        wrapper.after_call.write_error_check("PyErr_Occurred()")
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter(
@@ -63,6 +66,7 @@ class BoolPtrParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
             wrapper.after_call.write_code(
                 "*%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            wrapper.after_call.write_error_check("PyErr_Occurred()")
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool*'
@@ -74,6 +78,7 @@ class BoolPtrParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
             wrapper.before_call.write_code(
                 "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            wrapper.before_call.write_error_check("PyErr_Occurred()")
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % name])
@@ -95,6 +100,7 @@ class BoolRefParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.name)
             wrapper.after_call.write_code(
                 "%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            wrapper.after_call.write_error_check("PyErr_Occurred()")
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
@@ -105,6 +111,7 @@ class BoolRefParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
             wrapper.before_call.write_code(
                 "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            wrapper.before_call.write_error_check("PyErr_Occurred()")
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % (name,)])
-- 
2.43.0


From e17ebf32e401c639e40dd1e8610ee4f44bf07627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 09/62] fix: put char and string results before the output
 parameters

As every other return value handler does: char and char* came last in the result
of functions with output parameters, and string results of virtual methods were
read from the wrong place of the tuple.
---
 pybindgen/typehandlers/stringtype.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index d98a42a..b3ff828 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -202,7 +202,7 @@ class CharReturn(ReturnValue):
         wrapper.parse_params.add_parameter("c", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value])
+        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value], prepend=True)
 
 
 class CStringReturn(PointerReturnValue):
@@ -217,10 +217,10 @@ class CStringReturn(PointerReturnValue):
         return "return NULL;"
 
     def convert_python_to_c(self, wrapper):
-        wrapper.parse_params.add_parameter("s", ['&'+self.value])
+        wrapper.parse_params.add_parameter("s", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("s", [self.value])
+        wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
             wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
@@ -236,7 +236,7 @@ class StdStringReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
         len_ = wrapper.declarations.declare_variable("Py_ssize_t", "retval_len")
-        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_])
+        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], prepend=True)
         wrapper.after_call.write_code(
             "%s = std::string(%s, %s);" % (self.value, ptr, len_))
 
@@ -392,7 +392,7 @@ class GlibStringReturn(ReturnValue):
 
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr])
+        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
         wrapper.after_call.write_code(
             "%s = Glib::ustring(%s);" % (self.value, ptr))
 
-- 
2.43.0


From b270839eacb3841fe2b5d90896c2799adcc18463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 10/62] fix: generated code for unsigned int arrays as input

The name of the element was not substituted, and PyLong_AsUnsignedInt does not
exist, so that it did not compile.
---
 pybindgen/typehandlers/inttype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index c1dbdc1..f2a6c48 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -91,10 +91,11 @@ class UnsignedIntPtrParam(PointerParameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyNumber_Check(%(elem)s)',
+                        '!PyNumber_Check(%(elem)s)' % vars(),
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i ints / longs");'
                         % (self.name, self.array_length))
-                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedInt(%(elem)s);" % vars())
+                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedLong(%(elem)s);" % vars())
+                wrapper.before_call.write_error_check('PyErr_Occurred()')
 
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-- 
2.43.0


From dbc71d5b202de5110452030e5ed552136be8bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 11/62] fix: generated code for int* parameters with a null
 default value

---
 pybindgen/typehandlers/inttype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index f2a6c48..16e6ddc 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -176,8 +176,8 @@ class IntPtrParam(PointerParameter):
                 wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
                 wrapper.before_call.write_code(
                     "if (%(name_obj)s) {\n"
-                    "    %(name_int)s = PyInt_AsLong(%(name_obj)s);\n"
-                    "    %(name_ptr)s = &%(name_obj)s;\n"
+                    "    %(name_int)s = PyLong_AsLong(%(name_obj)s);\n"
+                    "    %(name_ptr)s = &%(name_int)s;\n"
                     "} else {\n"
                     "    %(name_ptr)s = NULL;\n"
                     "}\n"
@@ -186,7 +186,7 @@ class IntPtrParam(PointerParameter):
             if self.direction & self.DIRECTION_OUT:
                 wrapper.after_call.write_code(
                     "if (%(name_obj)s) {\n"
-                    "    %(name_obj)s = PyInt_FromLong(%(name_int)s);\n"
+                    "    %(name_obj)s = PyLong_FromLong(%(name_int)s);\n"
                     "} else {\n"
                     "    %(name_obj)s = Py_None;\n"
                     "    Py_INCREC(%(name_obj)s);\n"
-- 
2.43.0


From 3d1d642a4d23e2a7be9397ca03f27420c212cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 12/62] fix: check the elements of every float array parameter

With two array parameters, the check of the second looked at the element of the first.
---
 pybindgen/typehandlers/floattype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index dc08df4..91c7ad0 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -82,7 +82,7 @@ class FloatPtrParam(Parameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyFloat_Check(element)',
+                        '!PyFloat_Check(%s)' % elem,
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i floats");'
                         % (self.name, self.array_length))
                 wrapper.before_call.write_code("%(name)s[%(idx)s] = (float) PyFloat_AsDouble(%(elem)s);" % vars())
-- 
2.43.0


From bf44ebbcd4e325b5bda1d591e592e37521c914e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 13/62] fix: call the overload for 8 and 16 bit integers that
 was wrapped

The wrapper passed an int variable, so that with overloads f(int8_t) and f(int)
the C++ compiler chose f(int) in both wrappers.
---
 pybindgen/typehandlers/inttype.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 16e6ddc..68df466 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -300,7 +300,7 @@ class UInt16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s < 0 || %s > 0xffff' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt16RefParam(Parameter):
 
@@ -339,7 +339,7 @@ class Int16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s < -0x8000 || %s > 0x7fff' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 
 class Int16RefParam(Parameter):
@@ -378,7 +378,7 @@ class UInt8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s < 0 || %s > 0xff' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt8RefParam(Parameter):
 
@@ -435,7 +435,7 @@ class Int8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s < -0x80 || %s > 0x7f' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class Int8RefParam(Parameter):
 
-- 
2.43.0


From ed50c68defae3b36111f1ef7d6f0f31bd75b8ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 14/62] fix: take the interpreter lock again when an unblocked
 call throws

---
 pybindgen/cppmethod.py         |  2 ++
 pybindgen/function.py          |  1 +
 pybindgen/typehandlers/base.py | 14 +++++++++++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 06263fa..f067a17 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -301,6 +301,7 @@ class CppMethod(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_thread(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
@@ -696,6 +697,7 @@ class CppConstructor(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_thread(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return -1;')
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 6d4069b..5d2bbc2 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -214,6 +214,7 @@ class Function(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_thread(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index b05e29c..ee49cc5 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -768,6 +768,7 @@ class ForwardWrapperBase(object):
         self.force_parse = force_parse
         self.meth_flags = []
         self.unblock_threads = unblock_threads
+        self.py_thread_state = None # name of the variable holding the released thread state
         self.no_c_retval = no_c_retval
         self.overload_index = None
         self.deprecated = False
@@ -801,6 +802,7 @@ class ForwardWrapperBase(object):
         self.parse_params.clear()
         self.call_params = []
         self.meth_flags = []
+        self.py_thread_state = None
 
         self._init_code_generation_state()
 
@@ -851,6 +853,13 @@ class ForwardWrapperBase(object):
         code_sink.writeln('}')
 
 
+    def write_restore_thread(self, code_block):
+        """Writes the code that takes the GIL again, if it was released for the call"""
+        if self.py_thread_state is not None:
+            code_block.write_code(
+                "\nif (%s)\n"
+                "     PyEval_RestoreThread(%s);\n" % (self.py_thread_state, self.py_thread_state))
+
     def generate_body(self, code_sink, gen_call_params=()):
         """Generate the wrapper function body
         code_sink -- a CodeSink object that will receive the code
@@ -858,9 +867,8 @@ class ForwardWrapperBase(object):
 
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
-            self.after_call.write_code(
-                "\nif (%s)\n"
-                "     PyEval_RestoreThread(%s);\n" % (py_thread_state, py_thread_state))
+            self.py_thread_state = py_thread_state
+            self.write_restore_thread(self.after_call)
 
         ## convert the input parameters
         for param in self.parameters:
-- 
2.43.0


From aac5d1d1b7509e2c167fcf391d84ad5e7e92886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 15/62] fix: make copies of instances through the memory policy
 of the class

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9364adc..cbdfd37 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2289,7 +2289,7 @@ typedef struct {
         return have_constructor
 
     def _generate_copy_method(self, code_sink):
-        construct_name = self.get_construct_name()
+        self.get_construct_name() # raises an exception if the class cannot be constructed
         copy_wrapper_name = '_wrap_%s__copy__' % self.pystruct
         code_sink.writeln('''
 static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
@@ -2302,7 +2302,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         py_copy = declarations.declare_variable("%s*" % self.pystruct, "py_copy")
         self.write_allocate_pystruct(code_block, py_copy)
-        code_block.write_code("%s->obj = new %s(*self->obj);" % (py_copy, construct_name))
+        self.write_create_instance(code_block, "%s->obj" % py_copy, "*self->obj")
         if self.allow_subclassing:
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
-- 
2.43.0


From 5199188bd57e7bc9f3fab64fa304cc2f6f954e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 16/62] fix: do not release objects that the wrapper does not
 own with any memory policy

---
 pybindgen/cppclass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cbdfd37..2726842 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -183,7 +183,9 @@ class ReferenceCountingMethodsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    tmp->%s();\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        tmp->%s();\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_method))
         return delete_code
@@ -210,7 +212,9 @@ class ReferenceCountingFunctionsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_function))
         return delete_code
@@ -229,7 +233,9 @@ class FreeFunctionPolicy(MemoryPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.free_function))
         return delete_code
-- 
2.43.0


From 8c036b7274e899e1e67fc9d4f295672924020753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 17/62] fix: release the object made for an output parameter
 when the call fails

---
 pybindgen/cppclass.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 2726842..f474f24 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3138,9 +3138,9 @@ class CppClassRefParameter(CppClassParameterBase):
 
             self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
             if self.cpp_class.allow_subclassing:
-                wrapper.after_call.write_code(
+                wrapper.before_call.write_code(
                     "%s->inst_dict = NULL;" % (self.py_name,))
-            wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
+            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
 
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
@@ -3151,7 +3151,8 @@ class CppClassRefParameter(CppClassParameterBase):
                                                              "%s->obj" % self.py_name,
                                                              '')
             wrapper.call_params.append('*%s->obj' % (self.py_name,))
-            wrapper.build_params.add_parameter("N", [self.py_name])
+            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
+            wrapper.build_params.add_parameter("O", [self.py_name])
 
         ## well, personally I think inout here doesn't make much sense
         ## (it's just plain confusing), but might as well support it..
-- 
2.43.0


From c82c43eb69784dd77fa4a394cdcfead50d6ea44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 18/62] fix: accept None for a parameter that takes ownership,
 and drop its new reference when the call fails

---
 pybindgen/cppclass.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f474f24..ef0c78b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3489,7 +3489,7 @@ class CppClassPtrParameter(CppClassParameterBase):
         if self.transfer_ownership:
             if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
-                wrapper.after_call.write_code('if (%s) {' % self.py_name)
+                wrapper.after_call.write_code('if (%s) {' % value_ptr)
                 wrapper.after_call.indent()
                 if self.cpp_class.memory_policy is not None:
                     self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
@@ -3503,11 +3503,19 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % self.py_name)
+                # the callee receives a new reference; it is dropped again if the call does not happen or fails
+                new_ref = wrapper.declarations.declare_variable("%s*" % self.cpp_class.full_name,
+                                                                "%s_new_ref" % self.name, 'NULL')
+                wrapper.before_call.write_code("%s = %s;" % (new_ref, value_ptr))
+                wrapper.before_call.write_code("if (%s) {" % new_ref)
                 wrapper.before_call.indent()
-                self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
+                self.cpp_class.memory_policy.write_incref(wrapper.before_call, new_ref)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code("}")
+                drop_ref = CodeBlock('', wrapper.declarations)
+                self.cpp_class.memory_policy.write_decref(drop_ref, new_ref)
+                wrapper.before_call.add_cleanup_code("if (%s) {\n    %s\n}" % (new_ref, drop_ref.sink.flush().strip()))
+                wrapper.after_call.write_code("%s = NULL;" % new_ref)
 
 
     def convert_c_to_python(self, wrapper):
-- 
2.43.0


From bc959104022c5f284ff7dfdd3e12055778a883c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 19/62] fix: a null pointer result keeps the output values and
 the cleanups of the call

---
 pybindgen/cppclass.py               | 27 ++++++++++++++++++---------
 pybindgen/typehandlers/smart_ptr.py | 14 ++++++++------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ef0c78b..8aa1ed5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3781,23 +3781,25 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
 
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, the python value is None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "    %s = (%s *) Py_None;\n"
+                                      "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, self.caller_owns_return,
                                     self.reference_existing_object,
                                     type_is_pointer=True,
                                     caller_manages_return=self.caller_manages_return,
                                     free_after_copy=self.free_after_copy)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
@@ -3890,7 +3892,12 @@ def scan_custodians_and_wards(wrapper):
 
 def _add_ward(code_block, custodian, ward):
     wards = code_block.declare_variable(
-        'PyObject*', 'wards')
+        'PyObject*', 'wards', 'NULL')
+    # an object that is missing (None, or an omitted parameter) needs no wards and is no ward
+    code_block.write_code(
+        "if (%(custodian)s && %(custodian)s != Py_None && %(ward)s && %(ward)s != Py_None) {"
+        % vars())
+    code_block.indent()
     code_block.write_code(
         "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
         % vars())
@@ -3901,9 +3908,11 @@ def _add_ward(code_block, custodian, ward):
         "    PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s);\n"
         "}" % vars())
     code_block.write_code(
-        "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
+        "if (!PySequence_Contains(%(wards)s, %(ward)s))\n"
         "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
-    code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
+    code_block.unindent()
+    code_block.write_code("}")
+    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
 
 
 def _get_custodian_or_ward(wrapper, num):
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c0e661b..f74e61a 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -330,21 +330,23 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
         
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, the python value is None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "    %s = (%s *) Py_None;\n"
+                                      "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.after_call.indent()
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, caller_owns_return=True,
                                     reference_existing_object=False,
                                     type_is_pointer=True)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
-- 
2.43.0


From d3e0022510647af572174c89a959a39cd8b0769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 20/62] fix: release a shared pointer once when the garbage
 collector clears its wrapper

---
 pybindgen/typehandlers/smart_ptr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index f74e61a..ef6df17 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -24,7 +24,8 @@ class BoostSharedPtr(SmartPointerPolicy):
         return self.pointer_template % (class_name,)
         
     def get_delete_code(self, cpp_class):
-        return "self->obj.~shared_ptr< %s >();" % (cpp_class.full_name,)
+        # may run twice (tp_clear and then tp_dealloc), so the pointer has to stay valid
+        return "self->obj.reset();"
 
     def get_pointer_type(self, class_full_name):
         return self.get_pointer_name(class_full_name) + ' '
-- 
2.43.0


From 191553f69f12ba650849ad466a97bb982dd33681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 21/62] fix: record wrappers of shared pointers under the
 address of their object

---
 pybindgen/cppclass.py               | 52 +++++++++++++++--------------
 pybindgen/typehandlers/smart_ptr.py | 14 ++++----
 2 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 8aa1ed5..d754443 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2313,7 +2313,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
 
-        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, "%s->obj" % py_copy)
+        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, self.get_wrapper_key(py_copy))
 
         code_block.write_code("return (PyObject*) %s;" % py_copy)
 
@@ -2649,6 +2649,16 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
             'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
                 alias, self.pytypestruct))
 
+    def get_wrapper_key(self, py_name):
+        """
+        Get the expression of the address under which the wrapper
+        registry records the object of the given wrapper.
+        """
+        obj = "%s->obj" % py_name
+        if self.memory_policy is not None:
+            return self.memory_policy.get_pointer_to_void_name(obj)
+        return obj
+
     def write_allocate_pystruct(self, code_block, lvalue, wrapper_type=None):
         """
         Generates code to allocate a python wrapper structure, using
@@ -2792,22 +2802,14 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
                     code_block, cpp_class.pystruct, py_name, value_ptr)
         except NotSupportedError:
             write_create_new_wrapper()
-            if cpp_class.memory_policy is not None:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
-            else:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, "%s->obj" % py_name)
+            cpp_class.wrapper_registry.write_register_new_wrapper(
+                code_block, py_name, cpp_class.get_wrapper_key(py_name))
         else:
             code_block.write_code("if (%s == NULL) {" % py_name)
             code_block.indent()
             write_create_new_wrapper()
-            if cpp_class.memory_policy is not None:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, cpp_class.memory_policy.get_pointer_to_void_name("%s->obj" % py_name))
-            else:
-                cpp_class.wrapper_registry.write_register_new_wrapper(
-                    code_block, py_name, "%s->obj" % py_name)
+            cpp_class.wrapper_registry.write_register_new_wrapper(
+                code_block, py_name, cpp_class.get_wrapper_key(py_name))
             code_block.unindent()
 
             # If we are already referencing the existing python wrapper,
@@ -2868,7 +2870,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
         except NotSupportedError:
             write_create_new_wrapper()
             cpp_class.wrapper_registry.write_register_new_wrapper(
-                code_block, py_name, "%s->obj" % py_name)
+                code_block, py_name, cpp_class.get_wrapper_key(py_name))
         else:
             code_block.write_code("if (%s == NULL) {" % py_name)
             code_block.indent()
@@ -2877,7 +2879,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             # this instance => need to create new one
             write_create_new_wrapper()
             cpp_class.wrapper_registry.write_register_new_wrapper(
-                code_block, py_name, "%s->obj" % py_name)
+                code_block, py_name, cpp_class.get_wrapper_key(py_name))
             code_block.unindent()
 
             # handle ownership rules...
@@ -3032,7 +3034,7 @@ class CppClassParameter(CppClassParameterBase):
                                              "%s->obj" % self.py_name,
                                              self.value)
         self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                   "%s->obj" % self.py_name)
+                                                                   self.cpp_class.get_wrapper_key(self.py_name))
         self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                          "%s->obj" % self.py_name,
                                                          self.value)
@@ -3146,7 +3148,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                  "%s->obj" % self.py_name,
                                                  '')
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+                                                                       self.cpp_class.get_wrapper_key(self.py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              '')
@@ -3190,7 +3192,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                  "%s->obj" % self.py_name,
                                                  self.value)
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+                                                                       self.cpp_class.get_wrapper_key(self.py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              self.value)
@@ -3225,7 +3227,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                      "%s->obj" % self.py_name,
                                                      self.value)
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           "%s->obj" % self.py_name)
+                                                                           self.cpp_class.get_wrapper_key(self.py_name))
                 self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                                  "%s->obj" % self.py_name,
                                                                  self.value)
@@ -3272,7 +3274,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
                                              "%s->obj" % py_name,
                                              self.value)
         self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                   "%s->obj" % py_name)
+                                                                   self.cpp_class.get_wrapper_key(py_name))
         self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                          "%s->obj" % py_name,
                                                          self.value)
@@ -3350,7 +3352,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
                                                  "%s->obj" % py_name,
                                                  self.value)
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                       "%s->obj" % py_name)
+                                                                       self.cpp_class.get_wrapper_key(py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                              "%s->obj" % py_name,
                                                              self.value)
@@ -3633,13 +3635,13 @@ class CppClassPtrParameter(CppClassParameterBase):
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_wrapper_key(py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_wrapper_key(py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
             wrapper.build_params.add_parameter("N", [py_name])
@@ -3676,13 +3678,13 @@ class CppClassPtrParameter(CppClassParameterBase):
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                    wrapper.before_call, py_name, self.cpp_class.get_wrapper_key(py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_wrapper_key(py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index ef6df17..b135cf9 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -248,17 +248,18 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                    wrapper.before_call, self.cpp_class.pystruct, py_name,
+                    self.cpp_class.memory_policy.get_pointer_to_void_name(value))
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_wrapper_key(py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_wrapper_key(py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
             wrapper.build_params.add_parameter("N", [py_name])
@@ -287,17 +288,18 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                    wrapper.before_call, self.cpp_class.pystruct, py_name, value)
+                    wrapper.before_call, self.cpp_class.pystruct, py_name,
+                    self.cpp_class.memory_policy.get_pointer_to_void_name(value))
             except NotSupportedError:
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                    wrapper.before_call, py_name, self.cpp_class.get_wrapper_key(py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                                                                           self.cpp_class.get_wrapper_key(py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
-- 
2.43.0


From aedc168efe10d251c4357dbb1124272935a13cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 22/62] fix: forget the wrapper of an object that the garbage
 collector clears

---
 pybindgen/cppclass.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d754443..db320d4 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2463,14 +2463,21 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         tp_clear_function_name = "%s__tp_clear" % (self.pystruct,)
         self.slots.setdefault("tp_clear", tp_clear_function_name )
         delete_code = self._get_delete_code()
+        ## the object is gone afterwards, so its record has to go as well
+        code_block = CodeBlock("return;", DeclarationsScope())
+        self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.get_wrapper_key('self'))
         code_sink.writeln(r'''
 static void
 %s(%s *self)
-{
-    Py_CLEAR(self->inst_dict);
+{''' % (tp_clear_function_name, self.pystruct))
+        code_sink.indent()
+        code_block.declarations.get_code_sink().flush_to(code_sink)
+        code_block.sink.flush_to(code_sink)
+        code_sink.unindent()
+        code_sink.writeln(r'''    Py_CLEAR(self->inst_dict);
     %s
 }
-''' % (tp_clear_function_name, self.pystruct, delete_code))
+''' % (delete_code,))
 
         ## --- tp_traverse ---
         tp_traverse_function_name = "%s__tp_traverse" % (self.pystruct,)
-- 
2.43.0


From eb92235a1d4644b5d62878490b0d0ccd6e378b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 23/62] fix: record the wrappers of objects constructed from
 Python

---
 pybindgen/cppmethod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index f067a17..2e2a29b 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -713,6 +713,9 @@ class CppConstructor(ForwardWrapperBase):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
         from . import cppclass
         cppclass.implement_parameter_custodians_postcall(self)
+        ## the new object has its wrapper from now on
+        self._class.wrapper_registry.write_register_new_wrapper(
+            self.after_call, 'self', self._class.get_wrapper_key('self'))
 
     def generate(self, code_sink, wrapper_name=None, extra_wrapper_params=()):
         """
-- 
2.43.0


From 60ceb59be38718c00579ac5c26adf4cdcdcecbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 24/62] fix: unpack the tuple an overridden virtual method
 returns for several outputs

A virtual method with more than one return value or output parameter
wrapped the tuple returned by the Python override into another tuple,
so that parsing it always failed.
---
 pybindgen/typehandlers/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index ee49cc5..7378109 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -303,6 +303,10 @@ class ParseTupleParameters(object):
     def is_empty(self):
         return self.get_parameters() == ['""']
 
+    def get_num_parameters(self):
+        "returns the number of values that are parsed"
+        return len(self._parse_tuple_items)
+
     def get_parameters(self):
         """
         returns a list of parameters to pass into a
@@ -636,7 +640,12 @@ class ReverseWrapperBase(object):
         else:
             ## parse the return value
             ## this ensures that py_retval is always a tuple
-            self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')
+            if self.parse_params.get_num_parameters() == 1:
+                self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')
+            else:
+                ## multiple values are already returned as a tuple
+                self.before_call.write_code('if (!PyTuple_Check(py_retval))\n'
+                                            '    py_retval = Py_BuildValue((char*) "(N)", py_retval);')
 
             parse_tuple_params = ['py_retval']
             parse_params = self.parse_params.get_parameters()
-- 
2.43.0


From 7cddbd0361d2eda8a05e6db4ecb85bb2a4a4c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 25/62] fix: report every error found in the result of an
 overridden virtual method

Some checks set an exception without printing it, and left it pending
in the C++ caller.
---
 pybindgen/cppmethod.py         |  2 +-
 pybindgen/typehandlers/base.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 2e2a29b..2aeb9ea 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1040,7 +1040,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         params.extend(build_params)
         self.before_call.write_code('py_retval = PyObject_CallMethod(%s);'
                                     % (', '.join(params),))
-        self.before_call.write_error_check('py_retval == NULL', failure_cleanup='PyErr_Print();')
+        self.before_call.write_error_check('py_retval == NULL')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
 
     def generate_declaration(self, code_sink):
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 7378109..a910e3b 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -152,6 +152,7 @@ class CodeBlock(object):
         self._cleanup_actions = {}
         self._last_cleanup_position = 0
         self.error_return = error_return
+        self.error_report = None # code run first by every failed check
         self.declarations = declarations
 
     def clear(self):
@@ -224,6 +225,8 @@ class CodeBlock(object):
         self.sink.indent()
         if failure_cleanup is not None:
             self.sink.writeln(failure_cleanup)
+        if self.error_report is not None:
+            self.sink.writeln(self.error_report)
         self.write_error_return()
         self.sink.unindent()
         self.sink.writeln("}")
@@ -566,6 +569,11 @@ class ReverseWrapperBase(object):
         self.before_call = CodeBlock(error_return, self.declarations)
         self.after_call = CodeBlock(error_return, self.declarations,
                                     predecessor=self.before_call)
+        if not self.NO_GIL_LOCKING:
+            ## the caller is C/C++ code, no one else can see the exception
+            error_report = 'if (PyErr_Occurred())\n    PyErr_Print();'
+            self.before_call.error_report = error_report
+            self.after_call.error_report = error_report
         self.build_params = BuildValueParameters()
         self.parse_params = ParseTupleParameters()
         self._generate_gil_code()
@@ -653,8 +661,7 @@ class ReverseWrapperBase(object):
             parse_params[0] = '(char *) ' + parse_params[0]
             parse_tuple_params.extend(parse_params)
             self.before_call.write_error_check('!PyArg_ParseTuple(%s)' %
-                                               (', '.join(parse_tuple_params),),
-                                               failure_cleanup='PyErr_Print();')
+                                               (', '.join(parse_tuple_params),))
 
         ## cleanup and return
         self.after_call.write_cleanup()
-- 
2.43.0


From 8e6713fc28430f61d4884dc7b59db252ff5e0265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 26/62] fix: call the base implementation of a virtual method
 inherited by a wrapped class

The wrapper of a virtual method recognised the objects of Python
subclasses only when they derive directly from the class that declares
the method. For a class further down, calling the inherited method from
the Python override went back to the override, without end.
---
 pybindgen/cppclass.py  | 11 ++++++++++-
 pybindgen/cppmethod.py |  7 ++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index db320d4..f0cd97b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -379,7 +379,16 @@ class CppHelperClass(object):
         Returns True if all is well, False if a pure virtual method
         was found that could not be generated.
         """
-        code_sink.writeln("class %s : public %s\n{\npublic:" %
+        code_sink.writeln('''
+#ifndef __PYBINDGEN_HELPER_CLASS_DEFINED__
+#define __PYBINDGEN_HELPER_CLASS_DEFINED__
+namespace pybindgen {
+/* base of all helper classes: tells the objects of Python subclasses */
+class PythonHelper {};
+}
+#endif
+''')
+        code_sink.writeln("class %s : public %s, public pybindgen::PythonHelper\n{\npublic:" %
                           (self.name, self.class_.full_name))
 
         code_sink.indent()
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 2aeb9ea..824bb52 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -258,10 +258,11 @@ class CppMethod(ForwardWrapperBase):
 
         if class_.helper_class is not None and self.is_virtual and not self.is_pure_virtual\
                 and not settings._get_deprecated_virtuals():
-            helper = self.before_call.declare_variable(type_="%s *" % class_.helper_class.name,
+            ## the object may also have the helper class of a derived class
+            helper = self.before_call.declare_variable(type_="pybindgen::PythonHelper *",
                                                        name="helper_class",
-                                                       initializer=(
-                    "dynamic_cast<%s*> (self->obj)" % class_.helper_class.name))
+                                                       initializer=
+                    "dynamic_cast<pybindgen::PythonHelper*> (self->obj)")
         else:
             helper = None
 
-- 
2.43.0


From 34e6282ce197ea637dc7968fb63ab2bf2c22e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 27/62] fix: release the result of an override whose output
 value is bad

---
 pybindgen/typehandlers/booltype.py | 4 ++--
 pybindgen/typehandlers/inttype.py  | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 24f136d..81b5faf 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -66,7 +66,7 @@ class BoolPtrParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
             wrapper.after_call.write_code(
                 "*%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
-            wrapper.after_call.write_error_check("PyErr_Occurred()")
+            wrapper.after_call.write_error_check("PyErr_Occurred()", "Py_DECREF(py_retval);")
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool*'
@@ -100,7 +100,7 @@ class BoolRefParam(Parameter):
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.name)
             wrapper.after_call.write_code(
                 "%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
-            wrapper.after_call.write_error_check("PyErr_Occurred()")
+            wrapper.after_call.write_error_check("PyErr_Occurred()", "Py_DECREF(py_retval);")
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 68df466..170d229 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -450,6 +450,7 @@ class Int8RefParam(Parameter):
             tmp_var = wrapper.declarations.declare_variable("int", self.name + "_tmp")
             wrapper.parse_params.add_parameter("i", ["&"+tmp_var], self.name)
             wrapper.after_call.write_error_check('%s < -0x80 || %s > 0x7f' % (tmp_var, tmp_var),
+                                                 'Py_DECREF(py_retval);\n'
                                                  'PyErr_SetString(PyExc_ValueError, "Out of range");')
             wrapper.after_call.write_code("%s = %s;" % (self.value, tmp_var))
 
@@ -707,6 +708,7 @@ class Int8PtrParam(PointerParameter):
             tmp_var = wrapper.declarations.declare_variable("int", self.name + "_tmp")
             wrapper.parse_params.add_parameter("i", ["&"+tmp_var], self.name)
             wrapper.after_call.write_error_check('%s < -0x80 || %s > 0x7f' % (tmp_var, tmp_var),
+                                                 'Py_DECREF(py_retval);\n'
                                                  'PyErr_SetString(PyExc_ValueError, "Out of range");')
             wrapper.after_call.write_code("*%s = %s;" % (self.value, tmp_var))
 
-- 
2.43.0


From 3de8f9710cd9c778a43f1a442441142800ca3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 28/62] fix: call the getter method of an attribute once per
 read

---
 pybindgen/cppattribute.py       | 18 ++++++++++++++----
 pybindgen/cppcustomattribute.py | 12 ++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index f2c0006..43c48a3 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -27,6 +27,17 @@ class PyGetter(ForwardWrapperBase):
         """(not actually called)"""
         raise AssertionError
 
+    def write_getter_call(self, call):
+        """
+        Write code to call a C++ getter function; it is called exactly
+        once, whatever the number of times that the type handler uses
+        the value.
+        """
+        if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
+            self.before_call.write_code('%s retval = %s;' % (self.return_value.ctype, call))
+        else:
+            self.before_call.write_code('retval = %s;' % (call,))
+
 class PySetter(ReverseWrapperBase):
     """generates a setter, for use in a PyGetSetDef table"""
     NO_GIL_LOCKING = True
@@ -50,7 +61,7 @@ class CppInstanceAttributeGetter(PyGetter):
         :param getter: None, or name of a method of the class used to get the value
         """
         super(CppInstanceAttributeGetter, self).__init__(
-            value_type, [], "return NULL;", "return NULL;", no_c_retval=True)
+            value_type, [], "return NULL;", "return NULL;", no_c_retval=(getter is None))
         self.class_ = class_
         self.attribute_name = attribute_name
         self.getter = getter
@@ -58,12 +69,11 @@ class CppInstanceAttributeGetter(PyGetter):
                                                      self.attribute_name)
         if self.getter is None:
             value_type.value = "self->obj->%s" % self.attribute_name
-        else:
-            value_type.value = "self->obj->%s()" % self.getter
 
     def generate_call(self):
         "virtual method implementation; do not call"
-        pass
+        if self.getter is not None:
+            self.write_getter_call("self->obj->%s()" % self.getter)
 
     def generate(self, code_sink):
         """
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index a504551..f3a5a08 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -15,24 +15,24 @@ class CppCustomInstanceAttributeGetter(PyGetter):
         :param getter: None, or name of a method of the class used to get the value
         """
         super(CppCustomInstanceAttributeGetter, self).__init__(
-            value_type, [], "return NULL;", "return NULL;", no_c_retval=True)
+            value_type, [], "return NULL;", "return NULL;")
         self.class_ = class_
         self.attribute_name = attribute_name
         self.getter = getter
         self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
                                                      self.attribute_name)
         if template_parameters == []:
-            value_type.value = "%s(*((%s *)self)->obj)" % (self.getter, self.class_.pystruct)
+            self.call = "%s(*((%s *)self)->obj)" % (self.getter, self.class_.pystruct)
         else:
-            value_type.value = "%s<%s" % (self.getter, template_parameters[0])
+            self.call = "%s<%s" % (self.getter, template_parameters[0])
             if len(template_parameters) > 1:
                 for x in template_parameters[1:]:
-                    value_type.value += ", %s " % x
-            value_type.value += ">(*((%s *)self)->obj)" % self.class_.pystruct
+                    self.call += ", %s " % x
+            self.call += ">(*((%s *)self)->obj)" % self.class_.pystruct
 
     def generate_call(self):
         "virtual method implementation; do not call"
-        pass
+        self.write_getter_call(self.call)
 
     def generate(self, code_sink):
         """
-- 
2.43.0


From 6c856b53bb02272569b18df7af0552e8e83bf646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 29/62] fix: raise an exception when a wrapped attribute is
 deleted

---
 pybindgen/cppattribute.py       | 9 +++++++++
 pybindgen/cppcustomattribute.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 43c48a3..084145e 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -48,6 +48,13 @@ class PySetter(ReverseWrapperBase):
         """(not actually called)"""
         raise AssertionError
 
+    def write_deletion_check(self):
+        """Write code that rejects an attempt to delete the attribute"""
+        self.before_call.write_code("if (value == NULL) {\n"
+                                    "    PyErr_SetString(PyExc_TypeError, \"cannot delete attribute '%s'\");\n"
+                                    "    return -1;\n"
+                                    "}" % self.attribute_name)
+
 
 class CppInstanceAttributeGetter(PyGetter):
     '''
@@ -154,6 +161,7 @@ class CppInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.write_deletion_check()
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
@@ -228,6 +236,7 @@ class CppStaticAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.write_deletion_check()
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index f3a5a08..95d5421 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -75,6 +75,7 @@ class CppCustomInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.write_deletion_check()
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
-- 
2.43.0


From a62db0a0bb66be0ed42e5611f265762809101c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 30/62] fix: leave a bool attribute unchanged when the new
 value has no truth value

---
 pybindgen/typehandlers/booltype.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 81b5faf..2ee221a 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -40,10 +40,12 @@ class BoolReturn(ReturnValue):
     
     def convert_python_to_c(self, wrapper):
         py_name = wrapper.declarations.declare_variable('PyObject *', 'py_boolretval')
+        tmp = wrapper.declarations.declare_variable('int', 'tmp_boolretval')
         wrapper.parse_params.add_parameter("O", ["&"+py_name], prepend=True)
         wrapper.after_call.write_code(
-            "%s = PyObject_IsTrue(%s);" % (self.value, py_name))
-        wrapper.after_call.write_error_check("PyErr_Occurred()")
+            "%s = PyObject_IsTrue(%s);" % (tmp, py_name))
+        wrapper.after_call.write_error_check("%s < 0" % tmp)
+        wrapper.after_call.write_code("%s = %s != 0;" % (self.value, tmp))
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter(
-- 
2.43.0


From df3c44d7c56730b22c82d11b237255bce3e61724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 31/62] fix: check the real type of an argument instead of its
 __class__

---
 pybindgen/container.py              |  4 ++--
 pybindgen/cppclass.py               | 14 +++++++-------
 pybindgen/typehandlers/smart_ptr.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a7966db..612adf9 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -536,7 +536,7 @@ static PyObject*
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         container->clear();
@@ -568,7 +568,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         container->clear();
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f0cd97b..9fe47bf 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2616,7 +2616,7 @@ static void
         code_sink.indent()
 
         code_sink.writeln("""
-if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
+if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
     Py_INCREF(Py_NotImplemented);
     return Py_NotImplemented;
 }""" % self.pytypestruct)
@@ -3002,7 +3002,7 @@ class CppClassParameter(CppClassParameterBase):
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name, optional=True)
 
                 if self.default_value is None:
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
@@ -3013,13 +3013,13 @@ class CppClassParameter(CppClassParameterBase):
                         "    %s = %s;" %
                         (self.py_name, tmp_value_variable, self.default_value))
                     wrapper.before_call.write_code(
-                        "} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        "} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
                                                     self.cpp_class.pystruct, self.py_name))
                 for conversion_source in implicit_conversion_sources:
-                    wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, conversion_source.pytypestruct,
                                                     tmp_value_variable,
@@ -3127,13 +3127,13 @@ class CppClassRefParameter(CppClassParameterBase):
                         self.cpp_class.full_name, self.name)
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name)
 
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *((%s *) %s)->obj;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable,
                                                     self.cpp_class.pystruct, self.py_name))
                     for conversion_source in implicit_conversion_sources:
-                        wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                        "    %s = *((%s *) %s)->obj;" %
                                                        (self.py_name, conversion_source.pytypestruct,
                                                         tmp_value_variable,
@@ -3481,7 +3481,7 @@ class CppClassPtrParameter(CppClassParameterBase):
 
                 wrapper.before_call.write_error_check(
 
-                    "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                    "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                     % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                     'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index b135cf9..00804ba 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -183,7 +183,7 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.write_error_check(
 
-                "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                 % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                 'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
-- 
2.43.0


From 22441e69ebc2960c94b2d92eab1074fe65b413b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 32/62] fix: tolerate a list that changes while it is converted
 to a container

---
 pybindgen/container.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 612adf9..3f7325b 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -540,8 +540,8 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         container->clear();
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        // converting an item may run Python code, which may change the list
+        for (Py_ssize_t i = 0; i < PyList_Size(arg); i++) {
             %(ITEM_CTYPE)s item;
             if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
                 return 0;
@@ -572,20 +572,21 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         container->clear();
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        // converting an item may run Python code, which may change the list
+        for (Py_ssize_t i = 0; i < PyList_Size(arg); i++) {
             PyObject *tup = PyList_GET_ITEM(arg, i);
             if (!PyTuple_Check(tup) || PyTuple_Size(tup) != 2) {
                 PyErr_SetString(PyExc_TypeError, "items must be tuples with two elements");
                 return 0;
             }
             std::pair< %(KEY_CTYPE)s, %(ITEM_CTYPE)s > item;
-            if (!%(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)) {
-                return 0;
-            }
-            if (!%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
+            Py_INCREF(tup);
+            if (!%(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)
+                || !%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
+                Py_DECREF(tup);
                 return 0;
             }
+            Py_DECREF(tup);
             container->%(ADD_VALUE)s(item);
         }
     } else {
-- 
2.43.0


From ca0d99a6fc5a4380d69554eab7eeef878755f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 33/62] fix: let the garbage collector track wrappers and
 iterators made in C++

---
 pybindgen/container.py          |  2 ++
 pybindgen/cppclass.py           | 12 +++++++++++-
 pybindgen/cppclass_container.py |  2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 3f7325b..53cce05 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -453,6 +453,7 @@ static void
 static void
 %s(%s *self)
 {
+    PyObject_GC_UnTrack((PyObject*) self);
     Py_CLEAR(self->container);
     %s
     Py_TYPE(self)->tp_free((PyObject*)self);
@@ -483,6 +484,7 @@ static PyObject*
     Py_INCREF(self);
     iter->container = self;
     iter->iterator = new %(CTYPE)s::iterator(self->obj->begin());
+    PyObject_GC_Track((PyObject*) iter);
     return (PyObject*) iter;
 }
 ''' % subst_vars)
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9fe47bf..b283a96 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2584,6 +2584,9 @@ static void
 
         code_block = CodeBlock("PyErr_Print(); return;", DeclarationsScope())
 
+        if self.allow_subclassing:
+            code_block.write_code("PyObject_GC_UnTrack((PyObject*)self);")
+
         if self.memory_policy is not None:
             self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
         else:
@@ -2692,8 +2695,15 @@ if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
         if self.allow_subclassing:
             code_block.write_code(
                 "%s->inst_dict = NULL;" % (lvalue,))
+        init_code = ''
         if self.memory_policy is not None:
-            code_block.write_code(self.memory_policy.get_pystruct_init_code(self, lvalue))
+            init_code = self.memory_policy.get_pystruct_init_code(self, lvalue)
+            code_block.write_code(init_code)
+        if self.allow_subclassing:
+            ## the garbage collector may look at the object from now on
+            if not init_code:
+                code_block.write_code("%s->obj = NULL;" % (lvalue,))
+            code_block.write_code("PyObject_GC_Track((PyObject*) %s);" % (lvalue,))
 
 
 # from pybindgen.cppclass_typehandlers import CppClassParameter, CppClassRefParameter, \
diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index 7c22320..1fb9796 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -210,6 +210,7 @@ static int
 static void
 %s(%s *self)
 {
+    PyObject_GC_UnTrack((PyObject*) self);
     Py_CLEAR(self->container);
     %s
     Py_TYPE(self)->tp_free((PyObject*)self);
@@ -242,6 +243,7 @@ static PyObject*
     Py_INCREF(self);
     iter->container = self;
     iter->iterator = new %(CTYPE)s::%(ITERATOR_TYPE)s(self->obj->%(BEGIN_METHOD)s());
+    PyObject_GC_Track((PyObject*) iter);
     return (PyObject*) iter;
 }
 ''' % subst_vars)
-- 
2.43.0


From fa292329114a9d01a1762bd0f4540e68f42fd120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 34/62] fix: container pointer output parameter leaks its
 container when the call fails

---
 pybindgen/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 53cce05..265f46e 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -795,8 +795,10 @@ class ContainerPtrParameter(ContainerParameterBase):
 
         elif self.direction == Parameter.DIRECTION_OUT:
             container_tmp_var = wrapper.declarations.declare_variable(
-                self.container_type.full_name + '*', self.name + '_value', initializer="new %s" % self.container_type.full_name)
+                self.container_type.full_name + '*', self.name + '_value')
 
+            wrapper.before_call.write_code("%s = new %s;" % (container_tmp_var, self.container_type.full_name))
+            wrapper.before_call.add_cleanup_code("delete %s;" % container_tmp_var)
             wrapper.call_params.append(container_tmp_var)
 
             py_name = wrapper.declarations.declare_variable(
@@ -806,7 +808,7 @@ class ContainerPtrParameter(ContainerParameterBase):
                 "%s = PyObject_New(%s, %s);" %
                 (py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
 
-            wrapper.after_call.write_code("%s->obj = %s;" % (py_name, container_tmp_var))
+            wrapper.after_call.write_code("%s->obj = %s;\n%s = NULL;" % (py_name, container_tmp_var, container_tmp_var))
 
             wrapper.build_params.add_parameter("N", [py_name])
 
-- 
2.43.0


From 50b087bd3e79d1f93a1a68bbc45d7961b1a1c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 35/62] fix: narrow the type of objects returned by
 reference_existing_object

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index b283a96..31efbe9 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2739,8 +2739,8 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
         ## automatic_type_narrowing is active and we are not forced to
         ## make a copy of the object
         if (cpp_class.automatic_type_narrowing
-            and (caller_owns_return or isinstance(cpp_class.memory_policy,
-                                                  ReferenceCountingPolicy))):
+            and (caller_owns_return or reference_existing_object
+                 or isinstance(cpp_class.memory_policy, ReferenceCountingPolicy))):
 
             typeid_map_name = cpp_class.get_type_narrowing_root().typeid_map_name
             wrapper_type = code_block.declare_variable(
-- 
2.43.0


From e870456a4ce6c41ff0a9c3f70b6bcc8019136507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 36/62] fix: classes that allow subclassing below a parent that
 does not

---
 pybindgen/cppclass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 31efbe9..50151e0 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1840,8 +1840,8 @@ public:
 typedef struct {
     PyObject_HEAD
     %sobj;
-    PyObject *inst_dict;
     PyBindGenWrapperFlags flags:8;
+    PyObject *inst_dict;
 } %s;
     ''' % (pointer_type, self.pystruct))
 
@@ -2690,8 +2690,14 @@ if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
             new_func = 'PyObject_New'
         if wrapper_type is None:
             wrapper_type = '&'+self.pytypestruct
-        code_block.write_code("%s = %s(%s, %s);" %
-                              (lvalue, new_func, self.pystruct, wrapper_type))
+        if wrapper_type != '&'+self.pytypestruct and not self.allow_subclassing:
+            # a type found at run time, which may have a larger structure
+            # and garbage collection
+            code_block.write_code("%s = (%s *) %s->tp_alloc(%s, 0);" %
+                                  (lvalue, self.pystruct, wrapper_type, wrapper_type))
+        else:
+            code_block.write_code("%s = %s(%s, %s);" %
+                                  (lvalue, new_func, self.pystruct, wrapper_type))
         if self.allow_subclassing:
             code_block.write_code(
                 "%s->inst_dict = NULL;" % (lvalue,))
-- 
2.43.0


From 53e75912e5e3d83bd9836cbd8f4c434671f966c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 37/62] fix: narrowing finds the wrapper of Python subclasses'
 helper classes

---
 pybindgen/cppclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 50151e0..08e8c45 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1325,6 +1325,9 @@ class CppClass(object):
         root = self.get_type_narrowing_root()
         module.after_init.write_code("%s.register_wrapper(typeid(%s), &%s);"
                                      % (root.typeid_map_name, self.full_name, self.pytypestruct))
+        if self.helper_class is not None:
+            module.after_init.write_code("%s.register_wrapper(typeid(%s), &%s);"
+                                         % (root.typeid_map_name, self.helper_class.name, self.pytypestruct))
 
     def _generate_typeid_map(self, code_sink, module):
         """generate the typeid map and fill it with values"""
-- 
2.43.0


From 25e8f0aa98d68dcbf9af4bf4ee455ef3cf4995e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 38/62] fix: the bases of classes are known before the first
 class is readied

A class whose base belongs to a nested namespace was readied before the
init function of that namespace had set the base's own base.
---
 pybindgen/cppclass.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 08e8c45..46e7849 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1996,14 +1996,20 @@ typedef struct {
 
         if self.parent is not None:
             assert isinstance(self.parent, CppClass)
-            module.after_init.write_code('%s.tp_base = &%s;' %
-                                         (self.pytypestruct, self.parent.pytypestruct))
+            ## PyType_Ready on a class readies its bases too, and these may belong to a namespace
+            ## registered later: the bases of all classes have to be known before that.
+            if any(base.import_from_module for base in self.bases):
+                code_block = module.after_init
+            else:
+                code_block = module.get_root().before_init
+            code_block.write_code('%s.tp_base = &%s;' %
+                                  (self.pytypestruct, self.parent.pytypestruct))
             if len(self.bases) > 1:
-                module.after_init.write_code('%s.tp_bases = PyTuple_New(%i);' % (self.pytypestruct, len(self.bases),))
+                code_block.write_code('%s.tp_bases = PyTuple_New(%i);' % (self.pytypestruct, len(self.bases),))
                 for basenum, base in enumerate(self.bases):
-                    module.after_init.write_code('    Py_INCREF((PyObject *) &%s);' % (base.pytypestruct,))
-                    module.after_init.write_code('    PyTuple_SET_ITEM(%s.tp_bases, %i, (PyObject *) &%s);'
-                                                 % (self.pytypestruct, basenum, base.pytypestruct))
+                    code_block.write_code('    Py_INCREF((PyObject *) &%s);' % (base.pytypestruct,))
+                    code_block.write_code('    PyTuple_SET_ITEM(%s.tp_bases, %i, (PyObject *) &%s);'
+                                          % (self.pytypestruct, basenum, base.pytypestruct))
 
         if metaclass is not None:
             module.after_init.write_code('Py_TYPE(&%s) = &%s;' %
-- 
2.43.0


From e9ac83f4a096d57a1ec0d149737b1dce36ff364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 39/62] fix: custodians keep every ward, and calls that cannot
 keep it fail

A ward equal to one already kept was dropped, and when the custodian
takes no attributes the call succeeded with the exception left pending.
---
 pybindgen/cppclass.py          | 44 +++++++++++++++++++++++++---------
 pybindgen/typehandlers/base.py |  6 +++++
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 46e7849..e8483d2 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3933,9 +3933,18 @@ def scan_custodians_and_wards(wrapper):
 
 
 
-def _add_ward(code_block, custodian, ward):
+def _add_ward(wrapper, code_block, custodian, ward):
     wards = code_block.declare_variable(
         'PyObject*', 'wards', 'NULL')
+    wards_i = code_block.declare_variable(
+        'Py_ssize_t', 'wards_i')
+    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
+    if code_block is wrapper.after_call:
+        # results that were already converted are not returned when the relation cannot be established
+        failure_cleanup = '\n'.join("Py_XDECREF((PyObject *) %s);" % value
+                                    for value in wrapper.build_params.get_new_references()) or None
+    else:
+        failure_cleanup = None
     # an object that is missing (None, or an omitted parameter) needs no wards and is no ward
     code_block.write_code(
         "if (%(custodian)s && %(custodian)s != Py_None && %(ward)s && %(ward)s != Py_None) {"
@@ -3944,18 +3953,31 @@ def _add_ward(code_block, custodian, ward):
     code_block.write_code(
         "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
         % vars())
+    code_block.write_code("if (%(wards)s == NULL) {" % vars())
+    code_block.indent()
     code_block.write_code(
-        "if (%(wards)s == NULL) {\n"
-        "    PyErr_Clear();\n"
-        "    %(wards)s = PyList_New(0);\n"
-        "    PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s);\n"
-        "}" % vars())
+        "PyErr_Clear();\n"
+        "%(wards)s = PyList_New(0);" % vars())
+    code_block.write_error_check(
+        "%(wards)s == NULL || PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s) < 0"
+        % vars(), failure_cleanup)
+    code_block.unindent()
+    code_block.write_code("}")
+    code_block.write_error_check(
+        "!PyList_Check(%(wards)s)" % vars(),
+        "PyErr_SetString(PyExc_TypeError, \"__wards__ must be a list\");"
+        + (failure_cleanup and '\n' + failure_cleanup or ''))
+    # equal objects are not the same ward
     code_block.write_code(
-        "if (!PySequence_Contains(%(wards)s, %(ward)s))\n"
-        "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
+        "for (%(wards_i)s = 0; %(wards_i)s < PyList_GET_SIZE(%(wards)s); %(wards_i)s++) {\n"
+        "    if (PyList_GET_ITEM(%(wards)s, %(wards_i)s) == %(ward)s)\n"
+        "        break;\n"
+        "}" % vars())
+    code_block.write_error_check(
+        "%(wards_i)s == PyList_GET_SIZE(%(wards)s) && PyList_Append(%(wards)s, %(ward)s) < 0"
+        % vars(), failure_cleanup)
     code_block.unindent()
     code_block.write_code("}")
-    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
 
 
 def _get_custodian_or_ward(wrapper, num):
@@ -3972,7 +3994,7 @@ def _get_custodian_or_ward(wrapper, num):
 def implement_parameter_custodians_precall(wrapper):
     for custodian, ward, postcall in wrapper.custodians_and_wards:
         if not postcall:
-            _add_ward(wrapper.before_call,
+            _add_ward(wrapper, wrapper.before_call,
                       _get_custodian_or_ward(wrapper, custodian),
                       _get_custodian_or_ward(wrapper, ward))
 
@@ -3980,7 +4002,7 @@ def implement_parameter_custodians_precall(wrapper):
 def implement_parameter_custodians_postcall(wrapper):
     for custodian, ward, postcall in wrapper.custodians_and_wards:
         if postcall:
-            _add_ward(wrapper.after_call,
+            _add_ward(wrapper, wrapper.after_call,
                       _get_custodian_or_ward(wrapper, custodian),
                       _get_custodian_or_ward(wrapper, ward))
 
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index a910e3b..5020790 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -7,6 +7,7 @@ and base interfaces for wrapper generators.
 """
 
 from pybindgen.typehandlers import codesink
+import re
 import warnings
 from pybindgen.typehandlers import ctypeparser
 import sys
@@ -419,6 +420,11 @@ class BuildValueParameters(object):
         params[0] = ''.join(template)
         return params
 
+    def get_new_references(self):
+        """Get a list of the variables whose reference is stolen by the result"""
+        return [values[0] for (template, values, cleanup) in self._build_value_items
+                if template == 'N' and cleanup is None and re.match(r'^\w+$', values[0])]
+
     def get_cleanups(self):
         """Get a list of handles to cleanup actions"""
         return [cleanup for (dummy, dummy, cleanup) in self._build_value_items]
-- 
2.43.0


From 5558316e2b17d5545e5ceb07bca9801b5f23f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 40/62] fix: sequence slots pass whole indices, keep exceptions
 and report failures

---
 pybindgen/pytypeobject.py | 82 +++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index e045cd2..4b35848 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -293,12 +293,16 @@ static Py_ssize_t
 
     py_result = %(method_name)s(py_self, NULL, NULL);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
     Py_DECREF(py_result);
+    if (result < 0) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "__len__() should return >= 0");
+        }
+        return -1;
+    }
     return result;
 }
 
@@ -319,12 +323,16 @@ static Py_ssize_t
     py_result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
     Py_DECREF(py_result);
+    if (result < 0) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "__len__() should return >= 0");
+        }
+        return -1;
+    }
     return result;
 }
 
@@ -354,7 +362,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
@@ -370,16 +378,14 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
-    if (PyErr_ExceptionMatches(PyExc_IndexError) ||
-        PyErr_ExceptionMatches(PyExc_StopIteration)) {
+    if (PyErr_Occurred()) {
         Py_XDECREF(result);
         return NULL;
-    } else {
-        return result;
     }
+    return result;
 }
 
 
@@ -415,29 +421,38 @@ static int
 {
     PyObject *result;
     PyObject *args;
+    int is_integer;
+    long status;
 
-    args = Py_BuildValue("(iO)", py_i, py_val);
+    if (py_val == NULL) {
+        PyErr_SetString(PyExc_TypeError, "item deletion is not supported");
+        return -1;
+    }
+    args = Py_BuildValue("(nO)", py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
-        PyErr_SetString(PyExc_IndexError, "Unknown error trying to set value in container.");
         return -1;
+    }
 #if PY_MAJOR_VERSION >= 3
-    } else if (PyLong_Check(result) == 0) {
+    is_integer = PyLong_Check(result);
+    status = is_integer ? PyLong_AsLong(result) : -1;
 #else
-    } else if (PyInt_Check(result) == 0) {
+    is_integer = PyInt_Check(result);
+    status = is_integer ? PyInt_AS_LONG(result) : -1;
 #endif
+    Py_DECREF(result);
+    if (!is_integer) {
         PyErr_SetString(PyExc_IndexError, "Error trying to set value in container -- wrapped method should return integer status.");
         return -1;
-    } else {
-#if PY_MAJOR_VERSION >= 3
-        int iresult = int(PyLong_AS_LONG(result));
-#else
-        int iresult = int(PyInt_AS_LONG(result));
-#endif
-        Py_DECREF(result);
-        return iresult;
     }
+    if (status != 0) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_IndexError, "Unknown error trying to set value in container.");
+        }
+        return -1;
+    }
+    return 0;
 }
 
 ''',
@@ -476,27 +491,26 @@ static int
 {
     PyObject* result;
     PyObject *args;
+    int iresult;
 
     args = Py_BuildValue("(O)", py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
-#if PY_MAJOR_VERSION >= 3
-    if (result == NULL || PyLong_Check(result) == 0) {
-#else
-    if (result == NULL || PyInt_Check(result) == 0) {
-#endif
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to test __contains__.");
-        Py_XDECREF(result);
+    if (result == NULL) {
         return -1;
-    } else {
+    }
 #if PY_MAJOR_VERSION >= 3
-        int iresult = int(PyLong_AS_LONG(result));
+    if (PyLong_Check(result) == 0) {
 #else
-        int iresult = int(PyInt_AS_LONG(result));
+    if (PyInt_Check(result) == 0) {
 #endif
+        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to test __contains__.");
         Py_DECREF(result);
-        return iresult;
+        return -1;
     }
+    iresult = PyObject_IsTrue(result);
+    Py_DECREF(result);
+    return iresult;
 }
 
 ''',
@@ -525,7 +539,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
-- 
2.43.0


From 7162d5fcf5af1c5496fe7adce66747ba9a25ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 41/62] fix: classes that have only unary operators get their
 number methods

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e8483d2..0e81990 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2050,7 +2050,7 @@ typedef struct {
         if self.slots.get("tp_richcompare", "NULL") == "NULL" and self.binary_comparison_operators:
             self.slots["tp_richcompare"] = self._generate_tp_richcompare(code_sink)
 
-        if self.binary_numeric_operators or self.inplace_numeric_operators:
+        if self.binary_numeric_operators or self.inplace_numeric_operators or self.unary_numeric_operators:
             self.slots["tp_as_number"] = self._generate_number_methods(code_sink)
 
         if self.have_sequence_methods():
-- 
2.43.0


From 913dd6523ff518f359e124de8d8c8e68069eaffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 42/62] fix: str() of an object keeps NUL characters of the C++
 text

---
 pybindgen/cppclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0e81990..c2dffe1 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2536,7 +2536,8 @@ static PyObject *
 {
     std::ostringstream oss;
     oss << *self->obj;
-    return PyUnicode_FromString(oss.str ().c_str ());
+    std::string str = oss.str ();
+    return PyUnicode_FromStringAndSize(str.data (), str.size ());
 }
 
 ''' % (tp_str_function_name, self.pystruct))
-- 
2.43.0


From b1f7abfc66309335b6c30e2f22f1011d1985e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 43/62] fix: overloads with different method flags: the error
 handler decides, without one generation stops

---
 pybindgen/overloading.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index dc7bcef..5da6f32 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -105,10 +105,9 @@ class OverloadedWrapper(object):
                     wrapper_flags = utils.call_with_error_handling(
                         wrapper.get_py_method_def_flags, args=(), kwargs={}, wrapper=wrapper)
                 except utils.SkipWrapper:
-                    _, ex, tb = sys.exc_info()
+                    # (the error handler, if any, has already been told)
                     modified = True
                     self.wrappers.remove(wrapper)
-                    settings.error_handler.handle_error(wrapper, ex, tb)
                     break
 
                 wrapper_flags = set(wrapper_flags)
@@ -119,11 +118,13 @@ class OverloadedWrapper(object):
                         modified = True
                         self.wrappers.remove(wrapper)
                         tb = traceback.extract_stack()
-                        ex = utils.SkipWrapper(
+                        ex = NotSupportedError(
                             "overloading: removed the wrapper %s because its"
                             " method flags are different from existing ones."
                             % (wrapper,))
-                        settings.error_handler.handle_error(wrapper, ex, tb)
+                        if settings.error_handler is None \
+                                or not settings.error_handler.handle_error(wrapper, ex, tb):
+                            raise ex
                         break
 
     def _compute_all_wrappers(self):
-- 
2.43.0


From facd6ae9fbca4a6813d552134c732d4ab9ff47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 44/62] fix: an attribute whose getter and setter were skipped
 is not registered

---
 pybindgen/cppattribute.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 084145e..fc368d0 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -415,6 +415,8 @@ class PyGetSetDef(object):
                     pass
                 else:
                     setter_name = setter.c_function_name
+            if getter_name == 'NULL' and setter_name == 'NULL':
+                continue # skipped
             assert name not in getsets
             getsets[name] = (getter_name, setter_name, custom_name)
         
-- 
2.43.0


From 99f39d4258f1e5da333759512be45ac5fefd9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 45/62] fix: a skipped special method does not fill its
 sequence slot

---
 pybindgen/cppclass.py    | 2 +-
 pybindgen/overloading.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index c2dffe1..5390a3c 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2192,7 +2192,7 @@ typedef struct {
         self_converter = root_module.generate_python_to_c_type_converter(self.ThisClassReturn(self.full_name), code_sink)
 
         def try_wrap_sequence_method(py_name, slot_name):
-            if py_name in self.methods:
+            if py_name in self.methods and self.methods[py_name].wrapper_actual_name is not None:
                 numwraps = len(self.methods[py_name].wrappers)
                 some_wrapper_is_function = max([isinstance(x, function.Function) for x in self.methods[py_name].wrappers])
                 meth_wrapper_actual_name = self.methods[py_name].wrapper_actual_name
diff --git a/pybindgen/overloading.py b/pybindgen/overloading.py
index 5da6f32..6e315dc 100644
--- a/pybindgen/overloading.py
+++ b/pybindgen/overloading.py
@@ -196,6 +196,7 @@ class OverloadedWrapper(object):
             ## if all wrappers did not generate, then the overload
             ## aggregator wrapper should not be generated either..
             if not delegate_wrappers:
+                self.wrapper_actual_name = None
                 raise utils.SkipWrapper
 
             ## Generate the 'main wrapper' that calls the other ones
-- 
2.43.0


From 462fa60eea430b6647f0e131cd6ee08a27baff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 46/62] fix: a class whose constructors were all skipped does
 not inherit its base's constructor

---
 pybindgen/cppclass.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5390a3c..7da5c1e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2270,31 +2270,28 @@ typedef struct {
 
     def _generate_constructor(self, code_sink):
         """generate the constructor, if any"""
-        have_constructor = True
+        constructor = None
         if self.constructors and ((not self.cannot_be_constructed) or self.helper_class is not None
                                   and not self.helper_class.cannot_be_constructed):
             code_sink.writeln()
             overload = CppOverloadedConstructor(None)
             self.constructors_overload = overload
             overload.pystruct = self.pystruct
-            for constructor in self.constructors:
+            for constructor_wrapper in self.constructors:
                 try:
-                    overload.add(constructor)
+                    overload.add(constructor_wrapper)
                 except CodegenErrorBase:
                     continue
             if overload.wrappers:
                 try:
                     overload.generate(code_sink)
                 except utils.SkipWrapper:
-                    constructor = None
-                    have_constructor = False
+                    pass
                 else:
                     constructor = overload.wrapper_actual_name
                     code_sink.writeln()
-            else:
-                constructor = None
-                have_constructor = False
-        else:
+        have_constructor = (constructor is not None)
+        if not have_constructor:
             ## In C++, and unlike Python, constructors with
             ## parameters are not automatically inheritted by
             ## subclasses.  We must generate a 'no constructor'
@@ -2305,11 +2302,9 @@ typedef struct {
             wrapper = CppNoConstructor(self.cannot_be_constructed)
             wrapper.generate(code_sink, self)
             constructor = wrapper.wrapper_actual_name
-            have_constructor = False
             code_sink.writeln()
 
-        self.slots.setdefault("tp_init", (constructor is None and "NULL"
-                                          or constructor))
+        self.slots.setdefault("tp_init", constructor)
         return have_constructor
 
     def _generate_copy_method(self, code_sink):
-- 
2.43.0


From b2f58effe27b748fb1c4ec9e90d6cbcb13a844db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 47/62] fix: a type's full name takes precedence over the short
 name of an earlier namespaced type

---
 pybindgen/cppclass.py          | 18 +++++++++---------
 pybindgen/enum.py              |  8 ++++----
 pybindgen/typehandlers/base.py | 12 ++++++++++--
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7da5c1e..d2215b1 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -120,7 +120,7 @@ class MemoryPolicy(object):
             cpp_class = cls
         cls.ThisClassPtrParameter = ThisClassPtrParameter
         try:
-            param_type_matcher.register(name+'*', cls.ThisClassPtrParameter)
+            param_type_matcher.register(name+'*', cls.ThisClassPtrParameter, is_short_name=True)
         except ValueError:
             pass
 
@@ -130,7 +130,7 @@ class MemoryPolicy(object):
             cpp_class = cls
         cls.ThisClassPtrReturn = ThisClassPtrReturn
         try:
-            return_type_matcher.register(name+'*', cls.ThisClassPtrReturn)
+            return_type_matcher.register(name+'*', cls.ThisClassPtrReturn, is_short_name=True)
         except ValueError:
             pass
 
@@ -765,7 +765,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassParameter = ThisClassParameter
             try:
-                param_type_matcher.register(name, self.ThisClassParameter)
+                param_type_matcher.register(name, self.ThisClassParameter, is_short_name=True)
             except ValueError:
                 pass
 
@@ -776,7 +776,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassRefParameter = ThisClassRefParameter
             try:
-                param_type_matcher.register(name+'&', self.ThisClassRefParameter)
+                param_type_matcher.register(name+'&', self.ThisClassRefParameter, is_short_name=True)
             except ValueError:
                 pass
 
@@ -787,8 +787,8 @@ class CppClass(object):
             self.ThisClassReturn = ThisClassReturn
             self.ThisClassRefReturn = ThisClassReturn
             try:
-                return_type_matcher.register(name, self.ThisClassReturn)
-                return_type_matcher.register(name, self.ThisClassRefReturn)
+                return_type_matcher.register(name, self.ThisClassReturn, is_short_name=True)
+                return_type_matcher.register(name, self.ThisClassRefReturn, is_short_name=True)
             except ValueError:
                 pass
 
@@ -801,7 +801,7 @@ class CppClass(object):
                     cpp_class = self
                 self.ThisClassPtrParameter = ThisClassPtrParameter
                 try:
-                    param_type_matcher.register(name+'*', self.ThisClassPtrParameter)
+                    param_type_matcher.register(name+'*', self.ThisClassPtrParameter, is_short_name=True)
                 except ValueError:
                     pass
 
@@ -811,7 +811,7 @@ class CppClass(object):
                     cpp_class = self
                 self.ThisClassPtrReturn = ThisClassPtrReturn
                 try:
-                    return_type_matcher.register(name+'*', self.ThisClassPtrReturn)
+                    return_type_matcher.register(name+'*', self.ThisClassPtrReturn, is_short_name=True)
                 except ValueError:
                     pass
 
@@ -822,7 +822,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassRefReturn = ThisClassRefReturn
             try:
-                return_type_matcher.register(name+'&', self.ThisClassRefReturn)
+                return_type_matcher.register(name+'&', self.ThisClassRefReturn, is_short_name=True)
             except ValueError:
                 pass
 
diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 960da58..05a0699 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -117,19 +117,19 @@ class Enum(object):
 
         if self.name != self.full_name:
             try:
-                param_type_matcher.register(self.name, self.ThisEnumParameter)
+                param_type_matcher.register(self.name, self.ThisEnumParameter, is_short_name=True)
             except ValueError:
                 pass
             try:
-                return_type_matcher.register(self.name, self.ThisEnumReturn)
+                return_type_matcher.register(self.name, self.ThisEnumReturn, is_short_name=True)
             except ValueError:
                 pass
             try:
-                param_type_matcher.register(self.name+' &', self.ThisEnumRefParameter)
+                param_type_matcher.register(self.name+' &', self.ThisEnumRefParameter, is_short_name=True)
             except ValueError:
                 pass
             try:
-                param_type_matcher.register(self.name+' *', self.ThisEnumPtrParameter)
+                param_type_matcher.register(self.name+' *', self.ThisEnumPtrParameter, is_short_name=True)
             except ValueError:
                 pass
 
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 5020790..c5a5e6c 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1379,6 +1379,7 @@ class TypeMatcher(object):
     def __init__(self):
         """Constructor"""
         self._types = {}
+        self._short_names = set()
         self._transformations = []
         self._type_aliases = {}
         self._type_aliases_rev = {}
@@ -1389,16 +1390,23 @@ class TypeMatcher(object):
         assert isinstance(transformation, TypeTransformation)
         self._transformations.append(transformation)
 
-    def register(self, name, type_handler):
+    def register(self, name, type_handler, is_short_name=False):
         """Register a new handler class for a given C type
 
         :param name: C type name
 
         :param type_handler: class to handle this C type
+
+        :param is_short_name: the name may lack the namespace of the
+            type; a type whose full name it is takes precedence
         """
         name = ctypeparser.normalize_type_string(name)
-        if name in self._types:
+        if name in self._types and (is_short_name or name not in self._short_names):
             raise ValueError("return type %s already registered" % (name,))
+        if is_short_name:
+            self._short_names.add(name)
+        else:
+            self._short_names.discard(name)
         self._types[name] = type_handler
 
     def _raw_lookup_with_alias_support(self, name):
-- 
2.43.0


From 048faea20b4b185b05a05ca008cd598077daac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 48/62] fix: the result of an overriding Python method comes
 before its output parameters

Class, shared pointer and container results were parsed last.  A const
reference result is kept in a static variable, it was a dangling reference.
---
 pybindgen/container.py              |  3 ++-
 pybindgen/cppclass.py               | 15 +++++++--------
 pybindgen/typehandlers/smart_ptr.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 265f46e..8676860 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -871,7 +871,8 @@ class ContainerReturnValue(ContainerReturnValueBase):
             raise NotSupportedError("reference return type not supported")
         retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
         assert retval == 'retval'
-        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value])
+        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value],
+                                           prepend=True)
 
 
 ## end
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d2215b1..ce30999 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3326,7 +3326,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3407,12 +3407,11 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
-        if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-            wrapper.after_call.write_code('%s %s = *%s->obj;' %
-                                          (self.cpp_class.full_name, self.value, name))
-        else:
-            wrapper.after_call.write_code('%s = *%s->obj;' % (self.value, name))
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
+        ## the caller receives a reference, which must remain valid after the return
+        wrapper.after_call.write_code('static %s %s = *%s->obj;' %
+                                      (self.cpp_class.full_name, self.value, name))
+        wrapper.after_call.write_code('%s = *%s->obj;' % (self.value, name))
 
 
 class CppClassPtrParameter(CppClassParameterBase):
@@ -3852,7 +3851,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 00804ba..f982f07 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -360,7 +360,7 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
-- 
2.43.0


From 0d101f9c260a24fdb6753b8bb4a2b909d14f7fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 49/62] fix: pointer and in/out parameters of virtual methods
 overridden in Python

- a NULL pointer becomes None, it was dereferenced;
- the temporary wrapper of an in/out argument forgets (or copies) the C++
  object also if the Python method fails, it would free it otherwise, and is
  passed once;
- a transferred object goes back to the parent method if that has to take over;
- the wrapper of a helper class instance that was given away does not own the
  instance when it comes back without its ownership.
---
 pybindgen/cppclass.py               | 265 ++++++++++++++--------------
 pybindgen/cppmethod.py              |   1 +
 pybindgen/typehandlers/base.py      |   7 +
 pybindgen/typehandlers/smart_ptr.py |  13 +-
 4 files changed, 154 insertions(+), 132 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ce30999..894720a 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2504,7 +2504,8 @@ static void
             else:
                 peekref_code = " && self->obj->%s() == 1" % self.memory_policy.peekref_method
             visit_self = '''
-    if (self->obj && typeid(*self->obj).name() == typeid(%s).name() %s)
+    if (self->obj && !(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)
+        && typeid(*self->obj).name() == typeid(%s).name() %s)
         Py_VISIT((PyObject *) self);
 ''' % (self.helper_class.name, peekref_code)
 
@@ -2732,6 +2733,59 @@ from pybindgen.cppmethod import CppMethod, CppConstructor, CppNoConstructor, Cpp
 
 
 
+def add_detach_cleanup(wrapper, cpp_class, py_name, value, condition=None):
+    """
+    Adds cleanup code that makes a wrapper, which was passed to Python
+    code, forget about a C++ object that does not belong to it.  If
+    the Python code kept a reference to the wrapper, the wrapper gets
+    a copy of the object, if possible.  Returns the cleanup handle.
+    """
+    cleanup = CodeBlock('', wrapper.declarations)
+    if condition is not None:
+        cleanup.write_code("if (%s) {" % condition)
+        cleanup.indent()
+    if cpp_class.has_copy_constructor:
+        ## if after the call we notice the callee kept a reference
+        ## to the pyobject, we then swap pywrapper->obj for a copy
+        ## of the original object.  Else the ->obj pointer is
+        ## simply erased (we never owned this object in the first
+        ## place).
+        cleanup.write_code("if (Py_REFCNT(%s) == 1) {" % py_name)
+        cleanup.write_code("    %s->obj = NULL;" % py_name)
+        cleanup.write_code("} else {")
+        cleanup.indent()
+        cpp_class.write_create_instance(cleanup, "%s->obj" % py_name, value)
+        cpp_class.wrapper_registry.write_register_new_wrapper(cleanup, py_name,
+                                                              cpp_class.get_wrapper_key(py_name))
+        cpp_class.write_post_instance_creation_code(cleanup, "%s->obj" % py_name, value)
+        cleanup.unindent()
+        cleanup.write_code("}")
+    else:
+        ## it's not safe for the python wrapper to keep a
+        ## pointer to the object anymore; just set it to NULL.
+        cleanup.write_code("%s->obj = NULL;" % py_name)
+    if condition is not None:
+        cleanup.unindent()
+        cleanup.write_code("}")
+    return wrapper.before_call.add_cleanup_code(cleanup.sink.flush().rstrip())
+
+
+def write_attach_helper_instance(code_block, cpp_class, py_name, value, takes_ownership):
+    """
+    Write the code that makes the wrapper of a helper class instance
+    refer (again) to that instance, which has to be handed to Python
+    code.  The wrapper has no object if it was given away to C++ code.
+    """
+    if not isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+        if takes_ownership:
+            code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+        else:
+            code_block.write_code("if (%s->obj == NULL) {\n"
+                                  "    %s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;\n"
+                                  "}" % (py_name, py_name))
+    code_block.write_code("%s->obj = %s;" % (py_name, value))
+
+
 def common_shared_object_return(value, py_name, cpp_class, code_block,
                                 type_traits, caller_owns_return,
                                 reference_existing_object, type_is_pointer, caller_manages_return=True,
@@ -2879,7 +2933,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             % (py_name, cpp_class.pystruct,
                cpp_class.helper_class.name, const_cast_value))
 
-        code_block.write_code("%s->obj = %s;" % (py_name, const_cast_value))
+        write_attach_helper_instance(code_block, cpp_class, py_name, const_cast_value, caller_owns_return)
 
         # We are already referencing the existing python wrapper,
         # so we do not need a reference to the C++ object as well.
@@ -3248,32 +3302,7 @@ class CppClassRefParameter(CppClassParameterBase):
                 "%s->obj = %s;" % (self.py_name, value))
             wrapper.build_params.add_parameter("O", [self.py_name])
             wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-            if self.cpp_class.has_copy_constructor:
-                ## if after the call we notice the callee kept a reference
-                ## to the pyobject, we then swap pywrapper->obj for a copy
-                ## of the original object.  Else the ->obj pointer is
-                ## simply erased (we never owned this object in the first
-                ## place).
-                wrapper.after_call.write_code(
-                    "if (Py_REFCNT(%s) == 1)\n"
-                    "    %s->obj = NULL;\n"
-                    "else{\n" % (self.py_name, self.py_name))
-                wrapper.after_call.indent()
-                self.cpp_class.write_create_instance(wrapper.after_call,
-                                                     "%s->obj" % self.py_name,
-                                                     self.value)
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           self.cpp_class.get_wrapper_key(self.py_name))
-                self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
-                                                                 self.value)
-                wrapper.after_call.unindent()
-                wrapper.after_call.write_code('}')
-            else:
-                ## it's not safe for the python wrapper to keep a
-                ## pointer to the object anymore; just set it to NULL.
-                wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+            add_detach_cleanup(wrapper, self.cpp_class, self.py_name, self.value)
 
 
 class CppClassReturnValue(CppClassReturnValueBase):
@@ -3568,6 +3597,22 @@ class CppClassPtrParameter(CppClassParameterBase):
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        is_refcounted = isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy)
+        ## out/inout case:
+        ## the callee receives a "temporary wrapper", which loses
+        ## the ->obj pointer after the python call; this is so
+        ## that the python code directly manipulates the object
+        ## received as parameter, instead of a copy.
+        is_temporary = (not self.transfer_ownership and not is_refcounted
+                        and self.direction != Parameter.DIRECTION_IN)
+        ## if the Python method fails, the parent method becomes the owner instead
+        is_returned_on_failure = (self.transfer_ownership and wrapper.parameters_used_on_failure)
+        if is_temporary or is_returned_on_failure:
+            new_wrapper = wrapper.declarations.declare_variable(
+                self.cpp_class.pystruct+'*', 'new_'+py_name, 'NULL')
+        else:
+            new_wrapper = None
+
         def write_create_new_wrapper():
             """Code path that creates a new wrapper for the parameter"""
 
@@ -3575,8 +3620,7 @@ class CppClassPtrParameter(CppClassParameterBase):
             ## automatic_type_narrowing is active and we are not forced to
             ## make a copy of the object
             if (self.cpp_class.automatic_type_narrowing
-                and (self.transfer_ownership or isinstance(self.cpp_class.memory_policy,
-                                                           ReferenceCountingPolicy))):
+                and (self.transfer_ownership or is_refcounted)):
 
                 typeid_map_name = self.cpp_class.get_type_narrowing_root().typeid_map_name
                 wrapper_type = wrapper.declarations.declare_variable(
@@ -3592,75 +3636,39 @@ class CppClassPtrParameter(CppClassParameterBase):
             wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
             self.py_name = py_name
 
+            if self.type_traits.target_is_const:
+                unconst_value = "(%s*) (%s)" % (self.cpp_class.full_name, value)
+            else:
+                unconst_value = value
+
             ## Assign the C++ value to the Python wrapper
             if self.transfer_ownership:
                 wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+            elif is_refcounted:
+                ## The PyObject gets a new reference to the same obj
+                self.cpp_class.memory_policy.write_incref(wrapper.before_call, value)
+                wrapper.before_call.write_code("%s->obj = %s;" % (py_name, unconst_value))
+            elif is_temporary:
+                wrapper.before_call.write_code("%s->obj = %s;" % (py_name, unconst_value))
             else:
-                if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
-                    ## The PyObject gets a temporary pointer to the
-                    ## original value; the pointer is converted to a
-                    ## copy in case the callee retains a reference to
-                    ## the object after the call.
-
-                    if self.direction == Parameter.DIRECTION_IN:
-                        if not self.cpp_class.has_copy_constructor:
-                            raise CodeGenerationError("Class {0} cannot be copied".format(self.cpp_class.full_name))
-                        self.cpp_class.write_create_instance(wrapper.before_call,
-                                                             "%s->obj" % self.py_name,
-                                                             '*'+self.value)
-                        self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
-                                                                         "%s->obj" % self.py_name,
-                                                                         '*'+self.value)
-                    else:
-                        ## out/inout case:
-                        ## the callee receives a "temporary wrapper", which loses
-                        ## the ->obj pointer after the python call; this is so
-                        ## that the python code directly manipulates the object
-                        ## received as parameter, instead of a copy.
-                        if self.type_traits.target_is_const:
-                            unconst_value = "(%s*) (%s)" % (self.cpp_class.full_name, value)
-                        else:
-                            unconst_value = value
-                        wrapper.before_call.write_code(
-                            "%s->obj = %s;" % (self.py_name, unconst_value))
-                        wrapper.build_params.add_parameter("O", [self.py_name])
-                        wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-                        if self.cpp_class.has_copy_constructor:
-                            ## if after the call we notice the callee kept a reference
-                            ## to the pyobject, we then swap pywrapper->obj for a copy
-                            ## of the original object.  Else the ->obj pointer is
-                            ## simply erased (we never owned this object in the first
-                            ## place).
-
-                            wrapper.after_call.write_code(
-                                "if (Py_REFCNT(%s) == 1)\n"
-                                "    %s->obj = NULL;\n"
-                                "else {\n" % (self.py_name, self.py_name))
-                            wrapper.after_call.indent()
-                            self.cpp_class.write_create_instance(wrapper.after_call,
+                ## The PyObject gets a copy
+                if not self.cpp_class.has_copy_constructor:
+                    raise CodeGenerationError("Class {0} cannot be copied".format(self.cpp_class.full_name))
+                self.cpp_class.write_create_instance(wrapper.before_call,
+                                                     "%s->obj" % self.py_name,
+                                                     '*'+self.value)
+                self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                                  "%s->obj" % self.py_name,
-                                                                 '*'+value)
-                            self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                             "%s->obj" % self.py_name,
-                                                                             '*'+value)
-                            wrapper.after_call.unindent()
-                            wrapper.after_call.write_code('}')
-                        else:
-                            ## it's not safe for the python wrapper to keep a
-                            ## pointer to the object anymore; just set it to NULL.
-                            wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
-                else:
-                    ## The PyObject gets a new reference to the same obj
-                    self.cpp_class.memory_policy.write_incref(wrapper.before_call, value)
-                    if self.type_traits.target_is_const:
-                        wrapper.before_call.write_code("%s->obj = (%s*) (%s);" %
-                                                       (py_name, self.cpp_class.full_name, value))
-                    else:
-                        wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+                                                                 '*'+self.value)
+            if not is_temporary:
+                self.cpp_class.wrapper_registry.write_register_new_wrapper(
+                    wrapper.before_call, py_name, self.cpp_class.get_wrapper_key(py_name))
+            if new_wrapper is not None:
+                wrapper.before_call.write_code("%s = %s;" % (new_wrapper, py_name))
         ## closes def write_create_new_wrapper():
 
-        if self.cpp_class.helper_class is None:
+        def write_get_wrapper():
+            """Code path that finds the wrapper of the parameter, or creates one"""
             try:
                 if self.cpp_class.memory_policy is not None:
                     self.cpp_class.wrapper_registry.write_lookup_wrapper(
@@ -3670,64 +3678,65 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call, self.cpp_class.pystruct, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           self.cpp_class.get_wrapper_key(py_name))
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           self.cpp_class.get_wrapper_key(py_name))
                 wrapper.before_call.unindent()
-                wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
+                wrapper.before_call.write_code('}') # closes if (%s == NULL)
+        ## closes def write_get_wrapper():
+
+        # if value is NULL, the python value is None
+        wrapper.before_call.write_code("if (!(%s)) {\n"
+                                       "    Py_INCREF(Py_None);\n"
+                                       "    %s = (%s *) Py_None;\n"
+                                       "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.before_call.indent()
+        if self.cpp_class.helper_class is None:
+            write_get_wrapper()
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
             wrapper.before_call.indent()
 
             if self.type_traits.target_is_const:
-                wrapper.before_call.write_code(
-                    "%s = (%s*) (((%s*) ((%s*) %s))->m_pyself);"
-                    % (py_name, self.cpp_class.pystruct,
-                       self.cpp_class.helper_class.name, self.cpp_class.full_name, value))
-                wrapper.before_call.write_code("%s->obj =  (%s*) (%s);" %
-                                               (py_name, self.cpp_class.full_name, value))
+                helper_value = "(%s*) (%s)" % (self.cpp_class.full_name, value)
             else:
-                wrapper.before_call.write_code(
-                    "%s = (%s*) (((%s*) %s)->m_pyself);"
-                    % (py_name, self.cpp_class.pystruct,
-                       self.cpp_class.helper_class.name, value))
-                wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
+                helper_value = value
+            wrapper.before_call.write_code(
+                "%s = (%s*) (((%s*) %s)->m_pyself);"
+                % (py_name, self.cpp_class.pystruct,
+                   self.cpp_class.helper_class.name, helper_value))
+            write_attach_helper_instance(wrapper.before_call, self.cpp_class, py_name, helper_value,
+                                         self.transfer_ownership)
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("} else {")
             wrapper.before_call.indent()
 
-            try:
-                if self.cpp_class.memory_policy is not None:
-                    self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                        wrapper.before_call, self.cpp_class.pystruct, py_name, self.cpp_class.memory_policy.get_pointer_to_void_name(value))
-                else:
-                    self.cpp_class.wrapper_registry.write_lookup_wrapper(
-                        wrapper.before_call, self.cpp_class.pystruct, py_name, value)
-            except NotSupportedError:
-                write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, self.cpp_class.get_wrapper_key(py_name))
-            else:
-                wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
-                wrapper.before_call.indent()
-                write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           self.cpp_class.get_wrapper_key(py_name))
-                wrapper.before_call.unindent()
-                wrapper.before_call.write_code('}') # closes if (%s == NULL)
+            write_get_wrapper()
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}") # closes if (!(%s)) {...} else {
+
+        if new_wrapper is None:
             wrapper.build_params.add_parameter("N", [py_name])
+            return
 
+        wrapper.build_params.add_parameter("O", [py_name])
+        wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % py_name)
+        if is_temporary:
+            add_detach_cleanup(wrapper, self.cpp_class, py_name, '*'+value, condition=new_wrapper)
+        elif is_refcounted:
+            give_back = CodeBlock('', wrapper.declarations)
+            self.cpp_class.memory_policy.write_incref(give_back, value)
+            wrapper.failure_cleanups.append(wrapper.before_call.add_cleanup_code(
+                "if (%s) {\n    %s\n}" % (new_wrapper, give_back.sink.flush().strip())))
+        else:
+            wrapper.failure_cleanups.append(
+                add_detach_cleanup(wrapper, self.cpp_class, py_name, '*'+value, condition=new_wrapper))
 
 
 class CppClassPtrReturnValue(CppClassReturnValueBase):
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 824bb52..9989736 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1106,6 +1106,7 @@ Py_FatalError("Error detected, but parent virtual is pure virtual or private vir
             else:
                 self.set_error_return("return %s::%s(%s);"
                                       % (self.class_.full_name, self.method_name, call_params))
+                self.parameters_used_on_failure = True
             self.before_call.indent()
             self.before_call.write_cleanup()
             self.before_call.write_code(self.error_return)
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index c5a5e6c..34b5590 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -582,6 +582,10 @@ class ReverseWrapperBase(object):
             self.after_call.error_report = error_report
         self.build_params = BuildValueParameters()
         self.parse_params = ParseTupleParameters()
+        ## whether the error return hands the parameters over to other C/C++ code
+        self.parameters_used_on_failure = False
+        ## handles of cleanup actions that only run if the Python call fails
+        self.failure_cleanups = []
         self._generate_gil_code()
 
     def set_error_return(self, error_return):
@@ -595,6 +599,7 @@ class ReverseWrapperBase(object):
         self.after_call.clear()
         self.build_params.clear()
         self.parse_params.clear()
+        self.failure_cleanups = []
         self._generate_gil_code()
 
     def _generate_gil_code(self):
@@ -670,6 +675,8 @@ class ReverseWrapperBase(object):
                                                (', '.join(parse_tuple_params),))
 
         ## cleanup and return
+        for handle in self.failure_cleanups:
+            handle.cancel()
         self.after_call.write_cleanup()
         if self.return_value.ctype == 'void':
             self.after_call.write_code('return;')
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index f982f07..33234b6 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -245,6 +245,12 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
             ## Assign the C++ value to the Python wrapper
             wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
 
+        # if value is NULL, the python value is None
+        wrapper.before_call.write_code("if (!(%s)) {\n"
+                                       "    Py_INCREF(Py_None);\n"
+                                       "    %s = (%s *) Py_None;\n"
+                                       "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.before_call.indent()
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
@@ -262,7 +268,6 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                                                                            self.cpp_class.get_wrapper_key(py_name))
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -305,9 +310,9 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
-            wrapper.build_params.add_parameter("N", [py_name])
-            
-
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}")
+        wrapper.build_params.add_parameter("N", [py_name])
 
 
 class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
-- 
2.43.0


From 3f389d4d821c3f2f6ca70918e16291c6c0ba9a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 50/62] fix: an existing wrapper takes over the ownership that
 C++ code hands out

With the wrapper registry, an object that Python knew already without owning
it, and that is then returned or passed with its ownership, was never freed
(or kept one reference too many).
---
 pybindgen/cppclass.py | 64 +++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 894720a..9f02b67 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2733,7 +2733,7 @@ from pybindgen.cppmethod import CppMethod, CppConstructor, CppNoConstructor, Cpp
 
 
 
-def add_detach_cleanup(wrapper, cpp_class, py_name, value, condition=None):
+def add_detach_cleanup(wrapper, cpp_class, py_name, value, condition=None, is_registered=False):
     """
     Adds cleanup code that makes a wrapper, which was passed to Python
     code, forget about a C++ object that does not belong to it.  If
@@ -2744,6 +2744,8 @@ def add_detach_cleanup(wrapper, cpp_class, py_name, value, condition=None):
     if condition is not None:
         cleanup.write_code("if (%s) {" % condition)
         cleanup.indent()
+    if is_registered:
+        cpp_class.wrapper_registry.write_unregister_wrapper(cleanup, py_name, cpp_class.get_wrapper_key(py_name))
     if cpp_class.has_copy_constructor:
         ## if after the call we notice the callee kept a reference
         ## to the pyobject, we then swap pywrapper->obj for a copy
@@ -2883,6 +2885,20 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
 
     ## closes def write_create_new_wrapper():
 
+    def write_use_existing_wrapper():
+        """Code path that hands the ownership of the value to its existing wrapper"""
+        if not caller_owns_return:
+            return
+        code_block.write_code("} else {")
+        code_block.indent()
+        if isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+            # If we are already referencing the existing python wrapper,
+            # we do not need a reference to the C++ object as well.
+            cpp_class.memory_policy.write_decref(code_block, value_ptr)
+        else:
+            code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+        code_block.unindent()
+
     if cpp_class.helper_class is None:
         try:
             if cpp_class.memory_policy is not None:
@@ -2903,17 +2919,8 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
                 code_block, py_name, cpp_class.get_wrapper_key(py_name))
             code_block.unindent()
 
-            # If we are already referencing the existing python wrapper,
-            # we do not need a reference to the C++ object as well.
-            if caller_owns_return and \
-                    isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
-                code_block.write_code("} else {")
-                code_block.indent()
-                cpp_class.memory_policy.write_decref(code_block, value_ptr)
-                code_block.unindent()
-                code_block.write_code("}")
-            else:
-                code_block.write_code("}")
+            write_use_existing_wrapper()
+            code_block.write_code("}")
     else:
         # since there is a helper class, check if this C++ object is an instance of that class
         # http://stackoverflow.com/questions/579887/how-expensive-is-rtti/1468564#1468564
@@ -2974,17 +2981,8 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             code_block.unindent()
 
             # handle ownership rules...
-            if caller_owns_return and \
-                    isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
-                code_block.write_code("} else {")
-                code_block.indent()
-                # If we are already referencing the existing python wrapper,
-                # we do not need a reference to the C++ object as well.
-                cpp_class.memory_policy.write_decref(code_block, value_ptr)
-                code_block.unindent()
-                code_block.write_code("}")
-            else:
-                code_block.write_code("}")
+            write_use_existing_wrapper()
+            code_block.write_code("}")
 
         code_block.unindent()
         code_block.write_code("}") # closes: if (typeid(*(%s)) == typeid(%s)) { ... } else { ...
@@ -3667,6 +3665,16 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.before_call.write_code("%s = %s;" % (new_wrapper, py_name))
         ## closes def write_create_new_wrapper():
 
+        def write_transfer_to_existing_wrapper():
+            """Code path that hands the ownership of the parameter to its existing wrapper"""
+            if is_refcounted:
+                # the existing wrapper has a reference already
+                self.cpp_class.memory_policy.write_decref(wrapper.before_call, value)
+            else:
+                wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+            if new_wrapper is not None:
+                wrapper.before_call.write_code("%s = %s;" % (new_wrapper, py_name))
+
         def write_get_wrapper():
             """Code path that finds the wrapper of the parameter, or creates one"""
             try:
@@ -3683,6 +3691,11 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
                 wrapper.before_call.unindent()
+                if self.transfer_ownership:
+                    wrapper.before_call.write_code('} else {')
+                    wrapper.before_call.indent()
+                    write_transfer_to_existing_wrapper()
+                    wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
         ## closes def write_get_wrapper():
 
@@ -3709,6 +3722,8 @@ class CppClassPtrParameter(CppClassParameterBase):
                    self.cpp_class.helper_class.name, helper_value))
             write_attach_helper_instance(wrapper.before_call, self.cpp_class, py_name, helper_value,
                                          self.transfer_ownership)
+            if self.transfer_ownership:
+                write_transfer_to_existing_wrapper()
             wrapper.before_call.write_code("Py_INCREF(%s);" % py_name)
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("} else {")
@@ -3736,7 +3751,8 @@ class CppClassPtrParameter(CppClassParameterBase):
                 "if (%s) {\n    %s\n}" % (new_wrapper, give_back.sink.flush().strip())))
         else:
             wrapper.failure_cleanups.append(
-                add_detach_cleanup(wrapper, self.cpp_class, py_name, '*'+value, condition=new_wrapper))
+                add_detach_cleanup(wrapper, self.cpp_class, py_name, '*'+value, condition=new_wrapper,
+                                   is_registered=True))
 
 
 class CppClassPtrReturnValue(CppClassReturnValueBase):
-- 
2.43.0


From a408533dbdf63204e4f304dd181ee18baa6acbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 51/62] fix: the annotations of a definition at the top of a
 header are not looked for at its end

---
 pybindgen/castxmlparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index e4e7d1d..99f6bb2 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -440,7 +440,7 @@ class AnnotationsScanner(object):
         line_number -= 2
         global_annotations = {}
         parameter_annotations = {}
-        while 1:
+        while line_number >= 0:
             line = lines[line_number]
             line_number -= 1
             m = self._comment_rx.match(line)
-- 
2.43.0


From f83d1721f46d2ac7d0020f3e779e8425b5320311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 52/62] fix: an indented /* */ comment with annotations is an
 annotation

---
 pybindgen/castxmlparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 99f6bb2..205eb78 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -401,7 +401,7 @@ class AnnotationsScanner(object):
         self.files = {} # file name -> list(lines)
         self.used_annotations = {} # file name -> list(line_numbers)
         self._comment_rx = re.compile(
-            r"^\s*(?://\s+-#-(?P<annotation1>.*)-#-\s*)|(?:/\*\s+-#-(?P<annotation2>.*)-#-\s*\*/)")
+            r"^\s*(?:(?://\s+-#-(?P<annotation1>.*)-#-\s*)|(?:/\*\s+-#-(?P<annotation2>.*)-#-\s*\*/))")
         self._global_annotation_rx = re.compile(r"(\w+)(?:=([^\s;]+))?")
         self._param_annotation_rx = re.compile(r"@(\w+)\(([^;]+)\)")
 
-- 
2.43.0


From 60fc2d589922be05a6dff2eed42a68cf088c9b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 53/62] fix: caller_owns_return is not reported as an invalid
 annotation

---
 pybindgen/castxmlparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 205eb78..ccfbf18 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -348,7 +348,7 @@ class GccXmlTypeRegistry(object):
         for name, value in annotations.items():
             if name == 'caller_owns_return':
                 kwargs['caller_owns_return'] = annotations_scanner.parse_boolean(value)
-            if name == 'free_after_copy':
+            elif name == 'free_after_copy':
                 kwargs['free_after_copy'] = annotations_scanner.parse_boolean(value)
             elif name == 'reference_existing_object':
                 kwargs['reference_existing_object'] = annotations_scanner.parse_boolean(value)
-- 
2.43.0


From fbbdf269b884f84f8a5fdc0e28f5046ceb86c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 54/62] fix: the parameter annotations of a constructor reach
 its parameters

---
 pybindgen/castxmlparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index ccfbf18..3c114b1 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -2068,6 +2068,7 @@ pybindgen.settings.error_handler = ErrorHandler()
                 argument_specs = []
                 for arg in member.arguments:
                     argument_specs.append(self.type_registry.lookup_parameter(arg.decl_type, arg.name,
+                                                                              parameter_annotations.get(arg.name, {}),
                                                                               default_value=arg.default_value))
 
                 arglist_repr = ("[" + ', '.join([_pygen_param(args_, kwargs_) for (args_, kwargs_) in argument_specs]) +  "]")
-- 
2.43.0


From 78108d60cb1c9aee37644941ba495fd0d464473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:18 +0000
Subject: [PATCH 55/62] fix: no warning about an annotation that as_method
 itself adds

---
 pybindgen/castxmlparser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pybindgen/castxmlparser.py b/pybindgen/castxmlparser.py
index 3c114b1..14f89ef 100644
--- a/pybindgen/castxmlparser.py
+++ b/pybindgen/castxmlparser.py
@@ -2322,7 +2322,6 @@ pybindgen.settings.error_handler = ErrorHandler()
                 if argnum == 0 and as_method is not None \
                         and isinstance(arg.decl_type, cpptypes.pointer_t):
                     annotations.setdefault("transfer_ownership", "false")
-                    annotations.setdefault("free_after_copy", "false")
 
 
                 spec = self.type_registry.lookup_parameter(arg.decl_type, arg.name,
-- 
2.43.0


From cd1100ff853df84a66db335ba269aba156578e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 56/62] fix: a method wrapped again for a derived class keeps
 its throw, unblock_threads and deprecated options

---
 pybindgen/cppclass.py  | 2 ++
 pybindgen/cppmethod.py | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9f02b67..4d51775 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1814,6 +1814,8 @@ public:
                 if not method.is_virtual:
                     continue
                 method = method.clone()
+                ## the proxy of an inherited method has no exception specification
+                method.throw = []
                 self.helper_class.add_virtual_method(method)
 
     def _get_wrapper_registry(self):
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 9989736..fc9c36e 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -220,7 +220,11 @@ class CppMethod(ForwardWrapperBase):
                          is_pure_virtual=self.is_pure_virtual,
                          is_const=self.is_const,
                          visibility=self.visibility,
-                         custom_name=self.custom_name)
+                         custom_name=self.custom_name,
+                         unblock_threads=self.unblock_threads,
+                         deprecated=self.deprecated,
+                         throw=self.throw)
+        meth.custodians_and_wards = list(self.custodians_and_wards)
         meth._class = self._class
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
-- 
2.43.0


From 282b787f89b95f3c0b93f251f974327913bb2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 57/62] fix: inherited constructors keep the options of the
 parent constructor

---
 pybindgen/cppclass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 4d51775..e1eefc8 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1286,14 +1286,18 @@ class CppClass(object):
         for base in self.bases:
             for cons in base.constructors:
                 if len(cons.parameters) == 0:
-                    self.add_constructor([], visibility=cons.visibility)
+                    self.add_constructor([], visibility=cons.visibility,
+                                         unblock_threads=cons.unblock_threads,
+                                         deprecated=cons.deprecated, throw=cons.throw)
                 elif (len(cons.parameters) == 1
                       and isinstance(cons.parameters[0], self.parent.ThisClassRefParameter)):
                     self.add_constructor([self.ThisClassRefParameter(
                         self.full_name + "&",
                         "obj",
                         cons.parameters[0].direction)],
-                        visibility=cons.visibility)
+                        visibility=cons.visibility,
+                        unblock_threads=cons.unblock_threads,
+                        deprecated=cons.deprecated, throw=cons.throw)
 
     def get_helper_class(self):
         """gets the "helper class" for this class wrapper, creating it if necessary"""
-- 
2.43.0


From 64f71b6403774af519b876a7093c9d7ab51e25c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 58/62] fix: constructors that release the lock take it before
 they touch Python objects

---
 pybindgen/cppmethod.py         | 3 +++
 pybindgen/typehandlers/base.py | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index fc9c36e..9120833 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -671,6 +671,7 @@ class CppConstructor(ForwardWrapperBase):
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params),
                                          class_.helper_class.name)
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+            self.write_restore_thread(self.before_call)
             self.before_call.write_code('((%s*) self->obj)->set_pyobj((PyObject *)self);'
                                         % class_.helper_class.name)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params),
@@ -686,6 +687,8 @@ class CppConstructor(ForwardWrapperBase):
                     raise CodeGenerationError("private/protected constructor")
                 class_.get_construct_name()
             except CodeGenerationError:
+                self.write_restore_thread(self.before_call)
+                self.before_call.write_cleanup()
                 self.before_call.write_code('PyErr_SetString(PyExc_TypeError, "class \'%s\' '
                                             'cannot be constructed");' % class_.name)
                 self.before_call.write_code('return -1;')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 34b5590..0369cd8 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -886,8 +886,10 @@ class ForwardWrapperBase(object):
         """Writes the code that takes the GIL again, if it was released for the call"""
         if self.py_thread_state is not None:
             code_block.write_code(
-                "\nif (%s)\n"
-                "     PyEval_RestoreThread(%s);\n" % (self.py_thread_state, self.py_thread_state))
+                "\nif (%(state)s) {\n"
+                "     PyEval_RestoreThread(%(state)s);\n"
+                "     %(state)s = NULL;\n"
+                "}\n" % dict(state=self.py_thread_state))
 
     def generate_body(self, code_sink, gen_call_params=()):
         """Generate the wrapper function body
-- 
2.43.0


From 47eda5711b71921a2c68542c3158ab32ef3ea742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:51 +0000
Subject: [PATCH 59/62] fix: a call of a protected method from a subclass keeps
 the options of the method, and is checked before the lock is released

---
 pybindgen/cppmethod.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 9120833..0d0874d 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -275,9 +275,7 @@ class CppMethod(ForwardWrapperBase):
         else:
             method = 'self->obj->%s%s' % (self.method_name, template_params)
 
-        if self.throw:
-            self.before_call.write_code('try\n{')
-            self.before_call.indent()
+        self.write_open_try()
 
         if self.is_static:
             self.before_call.write_code(retval_assign + (
@@ -301,6 +299,16 @@ class CppMethod(ForwardWrapperBase):
                            ", ".join(self.call_params)
                            )))
 
+        self.write_catch_clauses()
+
+    def write_open_try(self):
+        "opens the block of the call, if the method may throw exceptions"
+        if self.throw:
+            self.before_call.write_code('try\n{')
+            self.before_call.indent()
+
+    def write_catch_clauses(self):
+        "closes the block of the call and converts the exceptions the method may throw"
         if self.throw:
             for exc in self.throw:
                 self.before_call.unindent()
@@ -894,8 +902,11 @@ class CppVirtualMethodParentCaller(CppMethod):
     """
 
     def __init__(self, method, unblock_threads=None):
+        if unblock_threads is None:
+            unblock_threads = method.unblock_threads
         super(CppVirtualMethodParentCaller, self).__init__(
-            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads)
+            method.method_name, method.return_value, method.parameters,
+            unblock_threads=unblock_threads, deprecated=method.deprecated, throw=method.throw)
         #self.static_decl = False
         self.method = method
 
@@ -947,19 +958,24 @@ class CppVirtualMethodParentCaller(CppMethod):
                                                           ', '.join([param.name for param in self.parameters])))
 
 
-    def generate_call(self, class_=None):
-        "virtual method implementation; do not call"
-        class_ = self.class_
-        helper = self.before_call.declare_variable(
+    def _before_call_hook(self):
+        "checks that the object has the helper class, while the lock is still held"
+        self.helper_variable = self.before_call.declare_variable(
             type_=('%s*' % self._helper_class.name),
             name='helper',
             initializer=("dynamic_cast< %s* >(self->obj)" %  self._helper_class.name))
-        method = '%s->%s__parent_caller' % (helper, self.method_name)
         self.before_call.write_error_check(
-            "%s == NULL" % helper,
+            "%s == NULL" % self.helper_variable,
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
+        super(CppVirtualMethodParentCaller, self)._before_call_hook()
+
+    def generate_call(self, class_=None):
+        "virtual method implementation; do not call"
+        class_ = self.class_
+        method = '%s->%s__parent_caller' % (self.helper_variable, self.method_name)
 
+        self.write_open_try()
         if self.return_value.ctype == 'void':
             self.before_call.write_code(
                 '%s(%s);' %
@@ -973,6 +989,7 @@ class CppVirtualMethodParentCaller(CppMethod):
                 self.before_call.write_code(
                     'retval = %s(%s);' %
                     (method, ", ".join(self.call_params)))
+        self.write_catch_clauses()
 
     def get_py_method_def(self, method_name=None):
         "Get the PyMethodDef entry suitable for this method"
-- 
2.43.0


From 42ef7636716cbbef78677e927f651f2f0847f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:51 +0000
Subject: [PATCH 60/62] fix: functions as constructors honour unblock_threads

---
 pybindgen/cppmethod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 0d0874d..fa06247 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -826,7 +826,7 @@ class CppFunctionAsConstructor(CppConstructor):
             unblock_threads = settings.unblock_threads
 
         parameters = [utils.eval_param(param, self) for param in parameters]
-        super(CppFunctionAsConstructor, self).__init__(parameters)
+        super(CppFunctionAsConstructor, self).__init__(parameters, unblock_threads=unblock_threads)
         self.c_function_name = c_function_name
         self.function_return_value = return_value
 
-- 
2.43.0


From 12bc082dff9748c7eb30dd02636e2883480e083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:31 +0000
Subject: [PATCH 61/62] fix: a class with narrowing and a wrapper registry can
 be imported from another module

---
 pybindgen/wrapper_registry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybindgen/wrapper_registry.py b/pybindgen/wrapper_registry.py
index bdc14d6..25f1778 100644
--- a/pybindgen/wrapper_registry.py
+++ b/pybindgen/wrapper_registry.py
@@ -89,14 +89,14 @@ class StdMapWrapperRegistry(WrapperRegistry):
 
     def generate_import(self, code_sink, code_block, module_pyobj_var):
         code_sink.writeln("std::map<void*, PyObject*> *_%s;" % self.map_name)
-        code_block.write_code("PyObject *_cobj = PyObject_GetAttrString(%s, (char*) \"_%s\");"
+        code_block.write_code("PyObject *_registry = PyObject_GetAttrString(%s, (char*) \"_%s\");"
                               % (module_pyobj_var, self.map_name))
-        code_block.write_code("if (_cobj == NULL) {\n"
+        code_block.write_code("if (_registry == NULL) {\n"
                               "    _%(MAP)s = NULL;\n"
                               "    PyErr_Clear();\n"
                               "} else {\n"
-                              "    _%(MAP)s = reinterpret_cast< std::map<void*, PyObject*> *> (PyCObject_AsVoidPtr (_cobj));\n"
-                              "    Py_DECREF(_cobj);\n"
+                              "    _%(MAP)s = reinterpret_cast< std::map<void*, PyObject*> *> (PyCObject_AsVoidPtr (_registry));\n"
+                              "    Py_DECREF(_registry);\n"
                               "}"
                               % dict(MAP=self.map_name))
 
-- 
2.43.0


From 3661789fa2387da54831fbda5e5db76a99329180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:05 +0000
Subject: [PATCH 62/62] fix: imported classes are there before the classes
 derived from them are registered

---
 pybindgen/cppclass.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e1eefc8..37cdc53 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1910,10 +1910,10 @@ typedef struct {
         return class_python_name
 
     def _generate_import_from_module(self, code_sink, module):
-        if module.parent is None:
-            error_retcode = "MOD_ERROR"
-        else:
-            error_retcode = "NULL"
+        ## classes derived from this one may be registered by a module that is initialised earlier than
+        ## this one (the root module, another namespace): everything is imported at the very beginning.
+        block = module.get_root().before_init
+        error_retcode = "MOD_ERROR"
 
         # TODO: skip this step if the requested typestructure is never used
         if ' named ' in self.import_from_module:
@@ -1921,24 +1921,24 @@ typedef struct {
         else:
             module_name, type_name = self.import_from_module, self.name
         code_sink.writeln("PyTypeObject *_%s;" % self.pytypestruct)
-        module.after_init.write_code("/* Import the %r class from module %r */" % (self.full_name, self.import_from_module))
-        module.after_init.write_code("{"); module.after_init.indent()
-        module.after_init.write_code("PyObject *module = PyImport_ImportModule((char*) \"%s\");" % module_name)
-        module.after_init.write_code(
+        block.write_code("/* Import the %r class from module %r */" % (self.full_name, self.import_from_module))
+        block.write_code("{"); block.indent()
+        block.write_code("PyObject *module = PyImport_ImportModule((char*) \"%s\");" % module_name)
+        block.write_code(
             "if (module == NULL) {\n"
             "    return %s;\n"
             "}" % (error_retcode,))
 
-        module.after_init.write_code("_%s = (PyTypeObject*) PyObject_GetAttrString(module, (char*) \"%s\");\n"
+        block.write_code("_%s = (PyTypeObject*) PyObject_GetAttrString(module, (char*) \"%s\");\n"
                                      % (self.pytypestruct, self.get_python_name()))
-        module.after_init.write_code("if (PyErr_Occurred()) PyErr_Clear();")
+        block.write_code("if (PyErr_Occurred()) PyErr_Clear();")
 
         if self.typeid_map_name is not None:
             code_sink.writeln("pybindgen::TypeMap *_%s;" % self.typeid_map_name)
-            module.after_init.write_code("/* Import the %r class type map from module %r */" % (self.full_name, self.import_from_module))
-            module.after_init.write_code("PyObject *_cobj = PyObject_GetAttrString(module, (char*) \"_%s\");"
+            block.write_code("/* Import the %r class type map from module %r */" % (self.full_name, self.import_from_module))
+            block.write_code("PyObject *_cobj = PyObject_GetAttrString(module, (char*) \"_%s\");"
                                          % (self.typeid_map_name))
-            module.after_init.write_code("if (_cobj == NULL) {\n"
+            block.write_code("if (_cobj == NULL) {\n"
                                          "    _%s = new pybindgen::TypeMap;\n"
                                          "    PyErr_Clear();\n"
                                          "} else {\n"
@@ -1948,9 +1948,9 @@ typedef struct {
                                          % (self.typeid_map_name, self.typeid_map_name))
 
         if self.parent is None:
-            self.wrapper_registry.generate_import(code_sink, module.after_init, "module")
+            self.wrapper_registry.generate_import(code_sink, block, "module")
 
-        module.after_init.unindent(); module.after_init.write_code("}")
+        block.unindent(); block.write_code("}")
 
         if self.helper_class is not None:
             self.helper_class.generate(code_sink)
-- 
2.43.0

