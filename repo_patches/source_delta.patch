From 4b44c082ba6d5d000fa37b6653e1a2b2033e1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 001/101] fix: import the Python 2.7 byteops from where they
 live

---
 xpython/byteop/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/__init__.py b/xpython/byteop/__init__.py
index 54e9090..48a8317 100644
--- a/xpython/byteop/__init__.py
+++ b/xpython/byteop/__init__.py
@@ -24,7 +24,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                     byteop = ByteOp27PyPy(vm)
                 else:
-                    from xpython.byteop.opcode_2x.byteop27 import ByteOp27
+                    from xpython.byteop.byteop27 import ByteOp27
 
                     byteop = ByteOp27(vm)
             else:
-- 
2.43.0


From 11c55b3824795ebe5d9be44acd37a64e69692259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 002/101] fix: double absolute jump operands in 3.10 bytecode
 too

Bytecode files give a two-element version, and (3, 10) >= (3, 10, 0) is False.
---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 2f699ec..11c6e82 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -597,7 +597,7 @@ class PyVM(object):
                     # We probably could set fallthough, since many (all?)
                     # of these are unconditional, but we'll make the jump do
                     # the work of setting.
-                    if self.version >= (3, 10, 0):
+                    if self.version >= (3, 10):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-- 
2.43.0


From d00a3c5b936f30217897e44f838820094b7c69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 003/101] fix: PyPy 3.7+ CALL_METHOD uses the stack layout of
 LOOKUP_METHOD

---
 xpython/byteop/byteop37pypy.py | 11 +++++++++++
 xpython/byteop/byteop38pypy.py |  1 +
 xpython/byteop/byteop39pypy.py |  1 +
 3 files changed, 13 insertions(+)

diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 1de6785..8dc4ff3 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -48,6 +48,17 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         self.is_pypy = True
         self.version = "3.7.12 (x-python, Oct 27 1955, 00:00:00)\n[PyPy with x-python]"
 
+    def CALL_METHOD(self, argc: int):
+        """
+        argc has a count of the number of positional parameters. Below these
+        is the cached method which in our case is garbage. After that is the
+        method to call. See LOOKUP_METHOD.
+        """
+        pos_args = self.vm.popn(argc)
+        self.vm.pop()  # cached method slot is not used here.
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_METHOD_KW(self, argc: int):
         """
         argc has a count of the number of keyword parameters.
diff --git a/xpython/byteop/byteop38pypy.py b/xpython/byteop/byteop38pypy.py
index 8af168d..5ec9f0a 100644
--- a/xpython/byteop/byteop38pypy.py
+++ b/xpython/byteop/byteop38pypy.py
@@ -22,4 +22,5 @@ class ByteOp38PyPy(ByteOp38, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index d3ab917..814df43 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,4 +22,5 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From 759df8982decacf4db0d74c88c3d1367a7aa933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 004/101] fix: propagate exceptions out of called frames
 instead of dropping them

An exception leaving a frame was swallowed when its traceback was a native
one, and turned into an unrelated RuntimeError when there was no traceback.
---
 xpython/vm.py      | 22 +++++++++-------------
 xpython/vmtrace.py | 21 ++++++++-------------
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 11c6e82..f9ac768 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -6,7 +6,6 @@ import linecache
 import logging
 import os
 import sys
-from types import TracebackType
 from typing import Any, List
 
 from xdis import (
@@ -24,7 +23,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Block, Frame, traceback_from_frame
 
 log = logging.getLogger(__name__)
 
@@ -443,9 +442,7 @@ class PyVM(object):
                 print("Traceback (most recent call last):")
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(
-                    f"{self.last_exception[0].__name__}:", *self.last_exception[1]
-                )
+                print(f"{self.last_exception[0].__name__}:", self.last_exception[1])
             return 1
 
         except Exception:
@@ -893,14 +890,13 @@ class PyVM(object):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            raise PyVMUncaughtException.from_tuple(last_exception)
-                        else:
-                            raise
-                else:
-                    raise
+                if not self.frame:
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                # Not handled in this frame, so it continues in our caller, at
+                # the instruction that called us.
+                if isinstance(last_exception[1], BaseException):
+                    raise last_exception[1]
+                raise last_exception[0]
             else:
                 raise PyVMError("Borked exception recording")
             # if self.exception and .... ?
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index a2b3262..1f98407 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,14 +3,13 @@ This can be used in a debugger or profiler.
 """
 
 import logging
-from types import TracebackType
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
 
-from xpython.pyobj import Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Frame, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
 
 log = logging.getLogger(__name__)
@@ -352,17 +351,13 @@ class PyVMTraced(PyVM):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            self.last_exception = PyVMUncaughtException.from_tuple(
-                                last_exception
-                            )
-                        raise self.last_exception
-                    else:
-                        raise last_exception[0]
-                    pass
-                pass
+                if not self.frame:
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                # Not handled in this frame, so it continues in our caller, at
+                # the instruction that called us.
+                if isinstance(last_exception[1], BaseException):
+                    raise last_exception[1]
+                raise last_exception[0]
             else:
                 raise PyVMError("Borked exception recording")
             # if self.exception and .... ?
-- 
2.43.0


From 0541881538a4afb4434bd0d3484fac0b7a3027ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 005/101] fix: hide removed opcodes per version instead of
 deleting them from the earlier versions

Interpreting (or just importing support for) a newer bytecode version
deleted opcode methods from the classes of the older ones, so that older
bytecode could no longer be interpreted in the same process.
---
 xpython/byteop/byteop27.py | 12 +++++++-----
 xpython/byteop/byteop31.py | 13 ++++++-------
 xpython/byteop/byteop32.py | 31 ++++++++++++++-----------------
 xpython/byteop/byteop34.py |  9 +++++----
 xpython/byteop/byteop35.py | 13 +++++++------
 xpython/byteop/byteop36.py | 18 ++++++++----------
 xpython/byteop/byteop37.py | 22 ++++++++--------------
 xpython/byteop/byteop38.py | 16 +++++++++-------
 xpython/byteop/byteop39.py | 30 +++++++++++++++---------------
 9 files changed, 79 insertions(+), 85 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index c22b3c9..ff66ac4 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -5,13 +5,9 @@ import types
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop26 import ByteOp26
 
-# Gone since 2.6
-del ByteOp24.JUMP_IF_FALSE
-del ByteOp24.JUMP_IF_TRUE
-
 
 def fmt_set_add(vm, arg, repr_fn=repr):
     return f" set.add({repr_fn(vm.peek(arg))}, {repr_fn(vm.top)})"
@@ -26,6 +22,12 @@ def fmt_map_add(vm, arg, repr_fn=repr):
 
 
 class ByteOp27(ByteOp26):
+    # Gone since 2.6.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    JUMP_IF_FALSE = None
+    JUMP_IF_TRUE = None
+
     def __init__(self, vm):
         super(ByteOp27, self).__init__(vm)
         self.stack_fmt["SET_ADD"] = fmt_set_add
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 15486ed..8e6f400 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -4,16 +4,15 @@
 from xpython.byteop.byteop32 import ByteOp32, Version_info
 # from xpython.byteop.byteop26 import ByteOp26
 
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.0 that may want to inherit from this module.
-
-# Added 3.2 but not in 3.1
-del ByteOp32.DUP_TOP_TWO
-del ByteOp32.DELETE_DEREF
-# del ByteOp32.SETUP_WITH
 
 
 class ByteOp31(ByteOp32):
+    # Added 3.2 but not in 3.1.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    DUP_TOP_TWO = None
+    DELETE_DEREF = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.version = "3.1.5 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 7f1dba7..28231d7 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -4,26 +4,10 @@
 import inspect
 
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Function
 
-# Gone since 3.0
-del ByteOp24.PRINT_EXPR
-del ByteOp24.PRINT_ITEM
-del ByteOp24.PRINT_ITEM_TO
-del ByteOp24.PRINT_NEWLINE
-del ByteOp24.PRINT_NEWLINE_TO
-del ByteOp24.BUILD_CLASS
-del ByteOp24.EXEC_STMT
-del ByteOp24.RAISE_VARARGS
-
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.1 that may want to inherit from this module.
-
-# Gone since 3.2
-del ByteOp24.DUP_TOPX
-
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
     """
@@ -37,6 +21,19 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
 
 
 class ByteOp32(ByteOp27):
+    # Gone since 3.0.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    PRINT_EXPR = None
+    PRINT_ITEM = None
+    PRINT_ITEM_TO = None
+    PRINT_NEWLINE = None
+    PRINT_NEWLINE_TO = None
+    BUILD_CLASS = None
+    EXEC_STMT = None
+    # Gone since 3.2
+    DUP_TOPX = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.stack_fmt["MAKE_FUNCTION"] = fmt_make_function
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index a6db178..cb62850 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -8,15 +8,16 @@ from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xdis.version_info import IS_PYPY, PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
-from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop33 import ByteOp33
 from xpython.pyobj import Function
 
-# Gone since 3.3
-del ByteOp32.STORE_LOCALS
-
 
 class ByteOp34(ByteOp33):
+    # Gone since 3.3.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    STORE_LOCALS = None
+
     def __init__(self, vm):
         super(ByteOp34, self).__init__(vm)
         self.version = "3.4.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index e6af99f..f0aed45 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -1,14 +1,9 @@
 """Bytecode Interpreter operations for Python 3.5
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
-from xpython.byteop.byteop32 import ByteOp32
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop34 import ByteOp34
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
-# Gone in 3.5
-del ByteOp24.STORE_MAP
-del ByteOp32.WITH_CLEANUP
-
 
 def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
     """returns string of the repr() for the first element of
@@ -24,6 +19,12 @@ def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
 
 
 class ByteOp35(ByteOp34):
+    # Gone in 3.5.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    STORE_MAP = None
+    WITH_CLEANUP = None
+
     def __init__(self, vm):
         super(ByteOp35, self).__init__(vm)
         self.stack_fmt["BUILD_MAP_UNPACK_WITH_CALL"] = fmt_build_map_unpack_with_call
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 4106515..9e8b334 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -9,19 +9,10 @@ import inspect
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
 
-# Gone in 3.6
-del ByteOp24.MAKE_CLOSURE
-del ByteOp24.CALL_FUNCTION_VAR
-
-# Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
-# However, it is gone in 3.7. So we will keep this around for one more version than
-# would be needed if we were doing strictly CPython 3.6
-# del ByteOp24.CALL_FUNCTION_VAR_KW
-
 # Note the order is important. The TOS is listed *last*.
 MAKE_FUNCTION_SLOT_NAMES = ("closure", "annotations", "kwdefaults", "defaults")
 MAKE_FUNCTION_SLOTS = len(MAKE_FUNCTION_SLOT_NAMES)
@@ -68,6 +59,13 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
 
 # pylint: disable=too-many-public-methods
 class ByteOp36(ByteOp35):
+    # Gone in 3.6.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    MAKE_CLOSURE = None
+    # Even though CPython 3.6 loses CALL_FUNCTION_VAR and CALL_FUNCTION_VAR_KW, PyPy
+    # retains them for 3.6. They are gone in 3.7.
+
     def __init__(self, vm):
         super(ByteOp36, self).__init__(vm)
         self.stack_fmt["CALL_FUNCTION"] = fmt_call_function
diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 72888a0..8de4eaf 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -1,21 +1,8 @@
 """Bytecode Interpreter operations for Python 3.7
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop36 import ByteOp36
 
-# Gone in 3.7
-del ByteOp36.STORE_ANNOTATION
-
-# Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
-del ByteOp24.CALL_FUNCTION_VAR_KW
-
-# del ByteOp36.WITH_CLEANUP_START
-# del ByteOp36.WITH_CLEANUP_FINISH
-# del ByteOp36.END_FINALLY
-# del ByteOp36.POP_EXCEPT
-# del ByteOp36.SETUP_WITH
-# del ByteOp36.SETUP_ASYNC_WITH
-
 
 # pylint: disable=too-few-public-methods
 class NullClass:
@@ -39,6 +26,13 @@ class ByteOp37(ByteOp36):
     """
     Python 3.7 opcodes
     """
+    # Gone in 3.7.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    STORE_ANNOTATION = None
+    # Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
+    CALL_FUNCTION_VAR_KW = None
+
     def __init__(self, vm):
         super().__init__(vm)
 
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index ffe32ed..5d9e824 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -6,17 +6,19 @@
 # See the documentation for the full license.
 """Bytecode Interpreter operations for Python 3.8
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop37 import ByteOp37
 
-# Gone in 3.8
-del ByteOp24.BREAK_LOOP
-del ByteOp24.CONTINUE_LOOP
-del ByteOp24.SETUP_LOOP
-del ByteOp24.SETUP_EXCEPT
-
 
 class ByteOp38(ByteOp37):
+    # Gone in 3.8.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    BREAK_LOOP = None
+    CONTINUE_LOOP = None
+    SETUP_LOOP = None
+    SETUP_EXCEPT = None
+
     def __init__(self, vm):
         super(ByteOp38, self).__init__(vm)
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index aa92bde..ef53bdf 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -7,25 +7,25 @@
 
 """Bytecode Interpreter operations for Python 3.9
 """
-from xpython.byteop.byteop24 import ByteOp24, Version_info
-from xpython.byteop.byteop35 import ByteOp35
-from xpython.byteop.byteop36 import ByteOp36
+from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop38 import ByteOp38
 
-# Gone in 3.8
-del ByteOp24.END_FINALLY
-del ByteOp35.BUILD_LIST_UNPACK
-del ByteOp35.BUILD_MAP_UNPACK
-del ByteOp35.BUILD_SET_UNPACK
-del ByteOp35.BUILD_TUPLE_UNPACK
-del ByteOp35.WITH_CLEANUP_FINISH
-del ByteOp35.WITH_CLEANUP_START
-del ByteOp36.BUILD_MAP_UNPACK_WITH_CALL
-del ByteOp38.CALL_FINALLY
-del ByteOp38.POP_FINALLY
-
 
 class ByteOp39(ByteOp38):
+    # Gone in 3.9.
+    # These are hidden here, rather than deleted from the classes that define
+    # them, because those classes still have to interpret the earlier versions.
+    END_FINALLY = None
+    BUILD_LIST_UNPACK = None
+    BUILD_MAP_UNPACK = None
+    BUILD_SET_UNPACK = None
+    BUILD_TUPLE_UNPACK = None
+    WITH_CLEANUP_FINISH = None
+    WITH_CLEANUP_START = None
+    BUILD_MAP_UNPACK_WITH_CALL = None
+    CALL_FINALLY = None
+    POP_FINALLY = None
+
     def __init__(self, vm) -> None:
         super(ByteOp38, self).__init__(vm)
         self.hexversion = 0x30907F0
-- 
2.43.0


From 35512eafb8ce8cf5893e06e40efab1d390ce23f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 006/101] fix: format the failing instruction only when that is
 going to be logged

---
 xpython/vm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index f9ac768..5b05471 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -684,7 +684,11 @@ class PyVM(object):
 
             # FIXME: dry code
             if not self.in_exception_processing:
-                if self.last_exception[0] != SystemExit:
+                # Formatting shows the operands, which runs code of the
+                # interpreted program; so do that only when it is wanted.
+                if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                    logging.INFO
+                ):
                     log.info(
                         (
                             "exception in the execution of "
@@ -850,7 +854,9 @@ class PyVM(object):
 
                 if not self.in_exception_processing:
                     # FIXME: DRY code
-                    if self.last_exception[0] != SystemExit:
+                    if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                        logging.INFO
+                    ):
                         log.info(
                             (
                                 "exception in the execution of "
-- 
2.43.0


From 0c920048c485d9c043a4697df0b6a0370b025f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 007/101] fix: let interrupts and SystemExit unwind through
 handlers and finally clauses

---
 xpython/vm.py      | 8 ++++++--
 xpython/vmtrace.py | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 5b05471..a377461 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -677,7 +677,8 @@ class PyVM(object):
                     )
                 why = bytecode_fn(*arguments)
 
-        except Exception:
+        except BaseException:
+            # Interrupts and SystemExit run handlers and "finally" clauses too.
             # Deal with exceptions encountered while executing the op.
             self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
@@ -896,7 +897,10 @@ class PyVM(object):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame:
+                if not self.frame and not (
+                    isinstance(last_exception[1], BaseException)
+                    and not isinstance(last_exception[1], Exception)
+                ):
                     raise PyVMUncaughtException.from_tuple(last_exception)
                 # Not handled in this frame, so it continues in our caller, at
                 # the instruction that called us.
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 1f98407..437f5b0 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -351,7 +351,10 @@ class PyVMTraced(PyVM):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame:
+                if not self.frame and not (
+                    isinstance(last_exception[1], BaseException)
+                    and not isinstance(last_exception[1], Exception)
+                ):
                     raise PyVMUncaughtException.from_tuple(last_exception)
                 # Not handled in this frame, so it continues in our caller, at
                 # the instruction that called us.
-- 
2.43.0


From dd104a2b7cfd145b69ca7ee93ab260b98f478d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 008/101] fix: bare raise re-raises the exception being
 handled, not the one raised last

---
 xpython/byteop/byteop.py   | 10 +++++-----
 xpython/byteop/byteop24.py |  4 +++-
 xpython/byteop/byteop32.py |  1 +
 xpython/byteop/byteop35.py |  1 +
 xpython/pyobj.py           |  5 +++++
 xpython/vm.py              | 23 +++++++++++++++++++++++
 6 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 70b27ba..9a2b717 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -398,11 +398,11 @@ class ByteOpBase(object):
 
     def do_raise(self, exc, cause):
         if exc is None:  # reraise
-            exc_type, val, _ = self.vm.last_exception
-            if exc_type is None:
-                return "exception"  # error
-            else:
-                return "reraise"
+            exc_info = self.vm.handled_exception()
+            if exc_info[0] is None:
+                raise RuntimeError("No active exception to reraise")
+            self.vm.last_exception = exc_info
+            return "reraise"
 
         elif type(exc) is type:
             # As in `raise ValueError`
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6c4b1e2..33ea69b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -839,7 +839,9 @@ class ByteOp24(ByteOpBase):
         tb = None
         exctype = None
         if argc == 0:
-            exctype, val, tb = self.vm.last_exception
+            exctype, val, tb = self.vm.handled_exception()
+            if exctype is None:
+                raise TypeError("exceptions must be classes or instances, not NoneType")
         elif argc == 1:
             exctype = self.vm.pop()
             val = AssertionError()
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 28231d7..65d11c0 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -232,6 +232,7 @@ class ByteOp32(ByteOp27):
             block = self.vm.pop_block()
             assert block.type == "except-handler"
             self.vm.push_block(block.type, block.handler, block.level - 1)
+            self.vm.top_block().exception = block.exception
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused WITH_CLEANUP")
         exit_ret = exit_func(u, v, w)
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index f0aed45..de405c9 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -175,6 +175,7 @@ class ByteOp35(ByteOp34):
             block = self.vm.pop_block()
             assert block.type == "except-handler"
             self.vm.push_block(block.type, block.handler, block.level - 1)
+            self.vm.top_block().exception = block.exception
         exit_ret = exit_method(second, third, fourth)
         self.vm.push(second)
         self.vm.push(exit_ret)
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d1189a9..dca12dc 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -370,12 +370,15 @@ class Block(object):
     int b_handler;              /* where to jump to find handler */
     int b_level;                /* value stack level to pop to */
 
+    In addition, the block of an exception handler notes in `exception` what it
+    handles.
     """
 
     def __init__(self, type, handler, level) -> None:
         self.type = type
         self.handler = handler
         self.level = level
+        self.exception = None
         return
 
     def __repr__(self) -> str:
@@ -469,6 +472,8 @@ class Frame(object):
             pass
 
         self.block_stack = []
+        # The exception caught last in this frame (Python 2.x only).
+        self.handled_exception = None
         self.generator = None
         self.version = version
 
diff --git a/xpython/vm.py b/xpython/vm.py
index a377461..f932d91 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -293,6 +293,27 @@ class PyVM(object):
     def top_block(self):
         return self.frame.block_stack[-1]
 
+    def handled_exception(self):
+        """Return the exception (type, value, traceback) that is being handled
+        here. In contrast, `last_exception` is the one that was raised last, even
+        if that has been dealt with already.
+        """
+        if self.version >= (3, 11):
+            # FIXME: blocks don't follow the handlers there.
+            return self.last_exception or (None, None, None)
+
+        frame = self.frame
+        while frame:
+            if self.version < (3, 0):
+                if frame.handled_exception:
+                    return frame.handled_exception
+            else:
+                for block in reversed(frame.block_stack):
+                    if block.type == "except-handler" and block.exception:
+                        return block.exception
+            frame = frame.f_back
+        return (None, None, None)
+
     def jump(self, jump):
         """Move the bytecode pointer to `jump`, so it will execute next,
         However we subtract one from the offset, because fetching the
@@ -744,6 +765,7 @@ class PyVM(object):
                 or block.type == "with"
             ):
                 if why == "exception":
+                    self.frame.handled_exception = self.last_exception
                     exctype, value, tb = self.last_exception
                     self.push(tb, value, exctype)
                 else:
@@ -758,6 +780,7 @@ class PyVM(object):
         else:
             if why == "exception" and block.type in ["setup-except", "finally"]:
                 self.push_block("except-handler")
+                self.top_block().exception = self.last_exception
                 exc_type, exc_value, exc_traceback = self.last_exception
                 # FIXME: start here - is this right for 2.7?
                 self.push(exc_traceback, exc_value, exc_type)
-- 
2.43.0


From 4e7aed1c9ae772a3d7f43cc36d1bc820daa13f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 009/101] fix: Python 2 raise makes an exception instance from
 the class and its arguments

---
 xpython/byteop/byteop24.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 33ea69b..d56fd71 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -844,26 +844,32 @@ class ByteOp24(ByteOpBase):
                 raise TypeError("exceptions must be classes or instances, not NoneType")
         elif argc == 1:
             exctype = self.vm.pop()
-            val = AssertionError()
+            val = None
         elif argc == 2:
-            val = self.vm.pop()
-            # Investigate: right now we see this *only* in 2.6.
-            # Can it happen in other bytecode versions?
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
-            exctype = self.vm.pop()
+            exctype, val = self.vm.popn(2)
         elif argc == 3:
-            tb = self.vm.pop()
-            val = self.vm.pop()
-            # See comment above
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
-            exctype = self.vm.pop()
+            exctype, val, tb = self.vm.popn(3)
 
         # There are a number of forms of "raise", normalize them somewhat.
         if isinstance(exctype, BaseException):
+            if argc and val is not None:
+                raise TypeError("instance exception may not have a separate value")
             val = exctype
             exctype = type(val)
+        elif isinstance(exctype, type) and issubclass(exctype, BaseException):
+            if isinstance(val, exctype):
+                exctype = type(val)
+            elif val is None:
+                val = exctype()
+            elif isinstance(val, tuple):
+                val = exctype(*val)
+            else:
+                val = exctype(val)
+        else:
+            raise TypeError(
+                "exceptions must be classes or instances, not %s"
+                % type(exctype).__name__
+            )
 
         self.vm.last_exception = (exctype, val, tb)
 
-- 
2.43.0


From 538da53a423c012f570a642e4e3d24810826c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 010/101] fix: Python 3 raise checks what it is asked to raise
 instead of losing the exception

---
 xpython/byteop/byteop.py   | 15 ++++++++++-----
 xpython/byteop/byteop32.py |  2 ++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 9a2b717..04b2141 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -404,25 +404,30 @@ class ByteOpBase(object):
             self.vm.last_exception = exc_info
             return "reraise"
 
-        elif type(exc) is type:
+        elif isinstance(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
             exc_type = exc
             val = exc()  # Make an instance.
+            if not isinstance(val, BaseException):
+                raise TypeError(
+                    "calling %r should have returned an instance of "
+                    "BaseException, not %r" % (exc, type(val))
+                )
         elif isinstance(exc, BaseException):
             # As in `raise ValueError('foo')`
             exc_type = type(exc)
             val = exc
         else:
-            return "exception"  # error
+            raise TypeError("exceptions must derive from BaseException")
 
         # If you reach this point, you're guaranteed that
         # val is a valid exception instance and exc_type is its class.
         # Now do a similar thing for the cause, if present.
-        if cause:
-            if type(cause) is type:
+        if cause is not None:
+            if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
             elif not isinstance(cause, BaseException):
-                return "exception"  # error
+                raise TypeError("exception causes must derive from BaseException")
 
             val.__cause__ = cause
 
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 65d11c0..c6d62d4 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -262,6 +262,8 @@ class ByteOp32(ByteOp27):
             exc = self.vm.pop()
         elif argc == 1:
             exc = self.vm.pop()
+        if argc and exc is None:
+            raise TypeError("exceptions must derive from BaseException")
         return self.do_raise(exc, cause)
 
 
-- 
2.43.0


From c676d1a13b230b274f185b22df0c5cbe23bc3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 011/101] fix: unpack any iterable, and check the number of
 items

---
 xpython/byteop/byteop.py   | 30 ++++++++++++++++++++++++++++++
 xpython/byteop/byteop24.py |  5 ++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 04b2141..8cca4e6 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -543,6 +543,36 @@ class ByteOpBase(object):
             sys_module = self.vm.frame.f_globals["sys"]
         return sys_module
 
+    def unpack_iterable(self, seq, before, after=None) -> list:
+        """Return the items of `seq` as unpacking assigns them. There have to be
+        exactly `before` items, unless `after` is given. In that case what is
+        between the first `before` and the last `after` items is one list.
+        """
+        it = iter(seq)
+        values = []
+        for i in range(before):
+            try:
+                values.append(next(it))
+            except StopIteration:
+                raise ValueError(
+                    f"not enough values to unpack (expected {before}, got {i})"
+                )
+        if after is None:
+            try:
+                next(it)
+            except StopIteration:
+                return values
+            raise ValueError(f"too many values to unpack (expected {before})")
+
+        rest = list(it)
+        if len(rest) < after:
+            raise ValueError(
+                f"not enough values to unpack (expected at least {before + after}, "
+                f"got {before + len(rest)})"
+            )
+        split = len(rest) - after
+        return values + [rest[:split]] + rest[split:]
+
     def unaryOperator(self, op):
         x = self.vm.pop()
         self.vm.push(UNARY_OPERATORS[op](x))
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index d56fd71..c36a3ec 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -437,9 +437,8 @@ class ByteOp24(ByteOpBase):
         """Unpacks TOS into count individual values, which are put onto the
         stack right-to-left.
         """
-        seq = self.vm.pop()
-        for x in reversed(seq):
-            self.vm.push(x)
+        values = self.unpack_iterable(self.vm.pop(), count)
+        self.vm.push(*reversed(values))
 
     def DUP_TOPX(self, count: int):
         """
-- 
2.43.0


From a9dbca8699cac017526d5d5c3efbec9de3402671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 012/101] fix: add the missing UNPACK_EX of Python 3 starred
 assignment

---
 xpython/byteop/byteop32.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index c6d62d4..432e912 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -53,6 +53,18 @@ class ByteOp32(ByteOp27):
         a, b = self.vm.popn(2)
         self.vm.push(a, b, a, b)
 
+    def UNPACK_EX(self, counts: int):
+        """Implements assignment with a starred target: Unpacks an
+        iterable in TOS into individual values, where the total number
+        of values can be smaller than the number of items in the
+        iterable: one of the new values will be a list of all leftover
+        items. The low byte of counts is the number of values before the
+        list value, the high byte of counts the number of values after it.
+        """
+        after, before = divmod(counts, 256)
+        values = self.unpack_iterable(self.vm.pop(), before, after)
+        self.vm.push(*reversed(values))
+
     def POP_EXCEPT(self):
         """
         Removes one block from the block stack. The popped block must be an
-- 
2.43.0


From a7853c9ec41515e33045b043dedb6a97e4f1c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 013/101] fix: LOAD_METHOD looks the attribute up once and
 raises AttributeError if there is none

---
 xpython/byteop/byteop37.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 8de4eaf..d1053c8 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -74,16 +74,11 @@ class ByteOp37(ByteOp36):
         """
         TOS = self.vm.pop()
 
-        if hasattr(TOS, name):
-            # FIXME: Figure out how to get an unbound method and self from a callable function.
-            # Until then, we need to push NULL and the callable (the default slow path).
-            function = getattr(TOS, name)
-            if not callable(function):
-                raise self.vm.PyVMError(f"LOAD_METHOD {name} off of {TOS} of type {type(TOS)} is not callable.")
-            self.vm.push(NULL)
-            self.vm.push(function)
-        else:
-            raise self.vm.PyVMError(f"LOAD_METHOD can't find {name} off of {TOS} of type {type(TOS)}")
+        # FIXME: Figure out how to get an unbound method and self from a callable function.
+        # Until then, we need to push NULL and the callable (the default slow path).
+        function = getattr(TOS, name)
+        self.vm.push(NULL)
+        self.vm.push(function)
 
     def CALL_METHOD(self, count):
         """Calls a method. argc is the number of positional
-- 
2.43.0


From 925a60bfa7002ff4e9dedf4c67f1b3d9b9eeee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 014/101] fix: LOAD_NAME looks the name up once

---
 xpython/byteop/byteop24.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index c36a3ec..5b41dee 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -472,15 +472,7 @@ class ByteOp24(ByteOpBase):
         """Pushes the value associated with co_names[namei] onto the stack.
         Running this opcode can raise a NameError.
         """
-        #
-        try:
-            self.lookup_name(name)
-        except NameError:
-            self.vm.last_traceback = self.traceback_from_frame()
-            self.create_exception(NameError, f"name '{name}' is not defined")
-            return "exception"
-        else:
-            self.vm.push(self.lookup_name(name))
+        self.vm.push(self.lookup_name(name))
 
     # Building
 
-- 
2.43.0


From d7b65235ca1669c1396c0b8b75f005fda9ae21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 015/101] fix: keep the result of in-place matrix
 multiplication

---
 xpython/byteop/byteop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 8cca4e6..fc7a9aa 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -470,7 +470,7 @@ class ByteOpBase(object):
             x |= y
         # 3.5 on
         elif op == "MATRIX_MULTIPLY":
-            operator.imatmul(x, y)
+            x = operator.imatmul(x, y)
         else:  # pragma: no cover
             raise self.PyVMError(f"Unknown in-place operator: {op!r}")
         self.vm.push(x)
-- 
2.43.0


From 3541e55320b4f8d1166c4aee77a4564872635e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 016/101] fix: format a call's arguments only when that is
 going to be logged

The operands may have a __repr__ of the interpreted program.
---
 xpython/vm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index f932d91..6adf6ec 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -344,9 +344,9 @@ class PyVM(object):
         # pylint: disable=dangerous-default-value
 
         log.debug(
-            "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
+            "make_frame: code=%r, callargs=%r, f_globals=%r, f_locals=%r",
             code,
-            repr(callargs),
+            callargs,
             (type(f_globals), id(f_globals)),
             (type(f_locals), id(f_locals)),
         )
-- 
2.43.0


From fa6b508acee33d2dc2412eec31f1159a10420885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 017/101] fix: a slice without bounds does not ask for the
 length first

---
 xpython/vm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 6adf6ec..ae24185 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -943,7 +943,7 @@ class PyVM(object):
     # Operators
 
     def sliceOperator(self, op):
-        start = 0
+        start = None
         end = None  # we will take this to mean end
         op, count = op[:-2], int(op[-1])
         if count == 1:
@@ -954,8 +954,6 @@ class PyVM(object):
             end = self.pop()
             start = self.pop()
         slice_len = self.pop()
-        if end is None:
-            end = len(slice_len)
         if op.startswith("STORE_"):
             slice_len[start:end] = self.pop()
         elif op.startswith("DELETE_"):
-- 
2.43.0


From 686eb7b84b2d05aecd806ccb79fade31adbf6f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 018/101] fix: find __exit__ where the 2.5 and 3.1 compilers
 leave it

---
 xpython/byteop/byteop25.py | 21 +++++++++------------
 xpython/byteop/byteop26.py | 15 +++++++++++++++
 xpython/byteop/byteop31.py | 22 ++++++++++++++++++++++
 3 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 5313e76..ee63bcb 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -13,6 +13,13 @@ class ByteOp25(ByteOp24):
         self.version = "2.5.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(2, 5, 6, "final", 0)
 
+    # Changed in 2.6
+    def pop_exit_function(self):
+        """Removes the context manager's __exit__() from the stack for
+        WITH_CLEANUP. The 2.5 compiler has just loaded it.
+        """
+        return self.vm.pop()
+
     # New in Python 2.5 but changes in 3.3.
     def WITH_CLEANUP(self):
         """Cleans up the stack when a "with" statement block exits. On top of
@@ -39,23 +46,13 @@ class ByteOp25(ByteOp24):
         All of the following opcodes expect arguments. An argument is
         two bytes, with the more significant byte last.
         """
-        # The code here does some weird stack manipulation: the __exit__ function
-        # is buried in the stack, and where depends on what's on top of it.
-        # Pull out the exit function, and leave the rest in place.
-        # In Python 3.x this is fixed up so that the __exit__ function is TOS
+        exit_func = self.pop_exit_function()
         v = w = None
         u = self.vm.top
-        if u is None:
-            exit_func = self.vm.pop(1)
-        elif isinstance(u, str):
-            if u in ("return", "continue"):
-                exit_func = self.vm.pop(2)
-            else:
-                exit_func = self.vm.pop(1)
+        if u is None or isinstance(u, str):
             u = None
         elif issubclass(u, BaseException):
             w, v, u = self.vm.popn(3)
-            exit_func = self.vm.pop()
             self.vm.push(w, v, u)
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused WITH_CLEANUP")
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index cdb7c39..08e47e5 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -85,6 +85,21 @@ class ByteOp26(ByteOp25):
 
         self.vm.push(module)
 
+    # Changed in 2.6
+    def pop_exit_function(self):
+        """Removes the context manager's __exit__() from the stack for
+        WITH_CLEANUP.
+
+        It is buried in the stack, and where depends on what's on top of it.
+        Pull it out, and leave the rest in place.
+        """
+        u = self.vm.top
+        if u is None:
+            return self.vm.pop(1)
+        if isinstance(u, str):
+            return self.vm.pop(2 if u in ("return", "continue") else 1)
+        return self.vm.pop(3)
+
     def MAKE_CLOSURE(self, argc: int):
         """
         Creates a new function object, sets its ``func_closure`` slot, and
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 8e6f400..a2cb4fc 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -18,6 +18,28 @@ class ByteOp31(ByteOp32):
         self.version = "3.1.5 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(3, 1, 5, "final", 0)
 
+    # Changed in 3.2
+    def WITH_CLEANUP(self):
+        """Cleans up the stack when a `with` statement block exits. TOS is the
+        context manager's `__exit__()` bound method, which the 3.1 compiler has
+        just loaded. Below that are 1-3 values indicating how/why the "finally"
+        clause was entered.
+        """
+        exit_func = self.vm.pop()
+        v = w = None
+        u = self.vm.top
+        if u is None or isinstance(u, str):
+            u = None
+        elif issubclass(u, BaseException):
+            w, v, u = self.vm.popn(3)
+            self.vm.push(w, v, u)
+        else:  # pragma: no cover
+            raise self.vm.PyVMError("Confused WITH_CLEANUP")
+        exit_ret = exit_func(u, v, w)
+        if u is not None and exit_ret:
+            # An error occurred, and was suppressed
+            self.vm.push("silenced")
+
     # Added in 2.4 but removed in 3.2, so we need to readd.
     def DUP_TOPX(self, count: int):
         """
-- 
2.43.0


From 7f98b001499a8815dce85cf47bfb76c41a315dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 019/101] fix: give every call its own cells, empty until the
 variable is bound

Calling a function put its cells into those of its caller, where they hid the
variables of the same name; a variable that had no value yet read as None.
---
 xpython/builtins.py         |  2 +-
 xpython/byteop/byteop24.py  | 19 +++++++++++--
 xpython/byteop/byteop311.py |  3 ++-
 xpython/byteop/byteop34.py  |  6 ++++-
 xpython/pyobj.py            | 54 +++++++++++++++----------------------
 5 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 4785643..13771a6 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -92,7 +92,7 @@ def build_class(opc, func, name, *bases, **kwds):
     # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
     # but needs a builtin cell object. make_cell() can do this.
     if "__classcell__" in namespace and metaclass == type:
-        namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
+        namespace["__classcell__"] = make_cell(None)
 
     try:
         cls = metaclass(name, bases, namespace)
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 5b41dee..e76458b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -49,7 +49,8 @@ def fmt_store_deref(vm, _, repr=repr):
 
 
 def fmt_load_deref(vm, int_arg, repr=repr):
-    return f" ({vm.frame.cells[get_cell_name(vm, int_arg)].get()})"
+    cell = vm.frame.cells[get_cell_name(vm, int_arg)]
+    return "" if cell.is_empty else f" ({cell.get()})"
 
 
 def fmt_call_function(vm, argc: int, repr=repr):
@@ -729,7 +730,21 @@ class ByteOp24(ByteOpBase):
         storage. Pushes a reference to the object the cell contains on the
         stack.
         """
-        self.vm.push(self.vm.frame.cells[name].get())
+        self.vm.push(self.load_cell(name))
+
+    def load_cell(self, name):
+        """Returns the value of the variable `name`, which is kept in a cell."""
+        frame = self.vm.frame
+        cell = frame.cells[name]
+        if not cell.is_empty:
+            return cell.get()
+        if name in frame.f_code.co_cellvars:
+            raise UnboundLocalError(
+                f"local variable '{name}' referenced before assignment"
+            )
+        raise NameError(
+            f"free variable '{name}' referenced before assignment in enclosing scope"
+        )
 
     def STORE_DEREF(self, name):
         """Stores TOS into the cell contained in slot i of the cell
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index ca98958..34ad4d6 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -345,7 +345,8 @@ class ByteOp311(ByteOp310):
         localsplus = co.co_freevars + co.co_cellvars
         for i in range(argc):
             name = localsplus[i]
-            frame.f_locals[name] = frame.cells[name].get()
+            cell = frame.cells[name]
+            frame.f_locals[name] = None if cell.is_empty else cell.get()
         return
 
     def KW_NAMES(self, names: Tuple[str]):
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index cb62850..4f52a4b 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -32,7 +32,11 @@ class ByteOp34(ByteOp33):
         consulting the cell. This is used for loading free variables in class
         bodies.
         """
-        self.vm.push(self.vm.frame.cells[count].get())
+        f_locals = self.vm.frame.f_locals
+        if count in f_locals:
+            self.vm.push(f_locals[count])
+        else:
+            self.vm.push(self.load_cell(count))
 
     ##############################################################################
     # Order of function here is the same as in:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index dca12dc..6204f09 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -345,15 +345,26 @@ class Cell:
 
     """
 
-    def __init__(self, value) -> None:
-        self.contents = value
+    def __init__(self, *value) -> None:
+        # Without a value, the variable is not bound (yet).
+        if value:
+            (self.contents,) = value
+
+    @property
+    def is_empty(self) -> bool:
+        return not hasattr(self, "contents")
 
     def get(self):
+        if self.is_empty:
+            raise ValueError("Cell is empty")
         return self.contents
 
     def set(self, value) -> None:
         self.contents = value
 
+    def clear(self) -> None:
+        del self.contents
+
 
 class Block(object):
     """
@@ -439,37 +450,14 @@ class Frame(object):
         # and other places which is why we don't set it to the more correct -1.
         self.f_lasti = -1
 
-        if f_code.co_cellvars:
-            self.cells = {}
-            if not f_back.cells:
-                f_back.cells = {}
-            for var in f_code.co_cellvars:
-                # Make a cell for the variable in our locals, or None.
-                cell = Cell(self.f_locals.get(var))
-                f_back.cells[var] = self.cells[var] = cell
-        else:
-            self.cells = None
-
-        if f_code.co_freevars:
-            if not self.cells:
-                self.cells = {}
-            for i, var in enumerate(f_code.co_freevars):
-                if closure:
-                    # print("XXX", f_code.co_freevars[i], closure[i].get())
-                    # if f_code.co_freevars[i] == "c" and  closure[i].get() == 5:
-                    #     from trepan.api import debug; debug()
-                    self.cells[var] = closure[i]
-                else:
-                    # FIXME: this branch is probably wrong.
-                    # Also check all calls of Frame and make_frame() in vm to ensure we
-                    # pass a function's closure attribute.
-                    assert isinstance(f_back.cells[i], Cell), "f_back.cells[%d]: %r" % (
-                        i,
-                        f_back.cells[i],
-                    )
-                    self.cells[var] = f_back.cells[var]
-                pass
-            pass
+        # The cells belong to this call alone: the frames that share a variable
+        # with it get its cell in the closure of a function.
+        self.cells = {}
+        for var in f_code.co_cellvars:
+            # A parameter has its value already.
+            self.cells[var] = Cell(*([f_locals[var]] if var in f_locals else []))
+        for var, cell in zip(f_code.co_freevars, closure or ()):
+            self.cells[var] = cell
 
         self.block_stack = []
         # The exception caught last in this frame (Python 2.x only).
-- 
2.43.0


From 797db0842949de13bb61b775fe15616c8180bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 020/101] fix: implement DELETE_DEREF

---
 xpython/byteop/byteop32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 432e912..db7b6c9 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -46,7 +46,8 @@ class ByteOp32(ByteOp27):
     def DELETE_DEREF(self, i):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
-        raise self.vm.PyVMError("DELETE_DEREF not implemented")
+        self.load_cell(i)  # It has to have a value.
+        self.vm.frame.cells[i].clear()
 
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
-- 
2.43.0


From 7f40ca9320b807515ff3797e4dbb633f8f09d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 021/101] fix: functions of Python 2.4 and 2.5 share the cells
 of their closure

---
 xpython/byteop/byteop24.py | 11 ++++++++---
 xpython/byteop/byteop25.py |  7 +++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index e76458b..de92ae5 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,7 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Cell, Function, Traceback
+from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -799,10 +799,10 @@ class ByteOp24(ByteOpBase):
         Changed in 2.6
         """
         code = self.vm.pop()
-        defaults = self.vm.popn(argc)
         globs = self.vm.frame.f_globals
 
-        closure = tuple([Cell(self.lookup_name(var)) for var in code.co_freevars])
+        closure = self.pop_closure(code)
+        defaults = self.vm.popn(argc)
         fn = Function(
             name=None,
             code=code,
@@ -813,6 +813,11 @@ class ByteOp24(ByteOpBase):
         )
         self.vm.push(fn)
 
+    # Changed in 2.5
+    def pop_closure(self, code) -> tuple:
+        """Removes the cells for the free variables of `code` from the stack."""
+        return tuple(self.vm.popn(len(code.co_freevars)))
+
     def BUILD_SLICE(self, count):
         """
         Pushes a slice object on the stack. argc must be 2 or 3. If it is
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index ee63bcb..2317f02 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -13,6 +13,13 @@ class ByteOp25(ByteOp24):
         self.version = "2.5.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(2, 5, 6, "final", 0)
 
+    # Changed in 2.5
+    def pop_closure(self, code) -> tuple:
+        """Removes the cells for the free variables of `code`, which are in a
+        tuple, from the stack.
+        """
+        return self.vm.pop()
+
     # Changed in 2.6
     def pop_exit_function(self):
         """Removes the context manager's __exit__() from the stack for
-- 
2.43.0


From dc061165e59e846909f3419f967733317380d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 022/101] fix: deleting a name that is not bound is a NameError

---
 xpython/byteop/byteop24.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index de92ae5..bb371ea 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -427,12 +427,18 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_GLOBAL(self, name):
         """Implements del name, where name in global."""
-        del self.vm.frame.f_globals[name]
+        f_globals = self.vm.frame.f_globals
+        if name not in f_globals:
+            raise NameError(f"global name '{name}' is not defined")
+        del f_globals[name]
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
-        del self.vm.frame.f_locals[name]
+        f_locals = self.vm.frame.f_locals
+        if name not in f_locals:
+            raise NameError(f"name '{name}' is not defined")
+        del f_locals[name]
 
     def UNPACK_SEQUENCE(self, count):
         """Unpacks TOS into count individual values, which are put onto the
@@ -714,7 +720,12 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_FAST(self, var_num):
         """Deletes local co_varnames[var_num]."""
-        del self.vm.frame.f_locals[var_num]
+        f_locals = self.vm.frame.f_locals
+        if var_num not in f_locals:
+            raise UnboundLocalError(
+                f"local variable '{var_num}' referenced before assignment"
+            )
+        del f_locals[var_num]
 
     def LOAD_CLOSURE(self, i):
         """Pushes a reference to the cell contained in slot i of the
-- 
2.43.0


From 2fea4be4d47084f904bb725d98583a416013f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 023/101] fix: the traceback of an uncaught exception shows all
 frames, innermost last

---
 xpython/byteop/byteop24.py |  2 +-
 xpython/pyobj.py           | 12 +++++++-----
 xpython/vm.py              | 13 ++++++++++---
 xpython/vmtrace.py         |  1 +
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index bb371ea..1bce0cd 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -154,7 +154,7 @@ class ByteOp24(ByteOpBase):
         tb = None
 
         while frame:
-            next_tb = Traceback24(copy(frame))
+            next_tb = Traceback24(copy(frame), tb)
             tb = next_tb
             frame = frame.f_back
         return tb
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 6204f09..cc61087 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -3,9 +3,9 @@
 import collections
 import inspect
 import linecache
+import sys
 import types
 from copy import copy
-from sys import stderr
 
 from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
 from xdis.cross_dis import findlinestarts
@@ -501,15 +501,17 @@ class Frame(object):
 
 
 class Traceback:
-    def __init__(self, frame) -> None:
-        self.tb_next = frame.f_back
+    def __init__(self, frame, tb_next=None) -> None:
+        self.tb_next = tb_next
         self.tb_lasti = frame.f_lasti
         self.tb_lineno = frame.f_lineno
         self.tb_frame = frame
 
     # Note: this can be removed when we have our own compatibility traceback.
-    def print_tb(self, limit=None, file=stderr) -> None:
+    def print_tb(self, limit=None, file=None) -> None:
         """Like traceback.tb, but is a method."""
+        if file is None:
+            file = sys.stderr
         tb = self
         while tb:
             f = tb.tb_frame
@@ -532,7 +534,7 @@ def traceback_from_frame(frame):
 
     while frame:
         copy_frame = copy(frame)
-        next_tb = Traceback(copy_frame)
+        next_tb = Traceback(copy_frame, tb)
         tb = next_tb
         frame = frame.f_back
     return tb
diff --git a/xpython/vm.py b/xpython/vm.py
index ae24185..bd8da48 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -164,6 +164,10 @@ class PyVM(object):
         # Like sys.exc_info() tuple
         self.last_exception = None
 
+        # The exception that is on its way from a frame to its caller;
+        # last_traceback tells already where it was raised.
+        self.leaving_frame = None
+
         # Sometimes we need a native function (e.g. for method lookup), but
         # most of the time we want a VM function defined in pyobj.
         # This maps between the two.
@@ -701,8 +705,11 @@ class PyVM(object):
         except BaseException:
             # Interrupts and SystemExit run handlers and "finally" clauses too.
             # Deal with exceptions encountered while executing the op.
-            self.last_traceback = byteop.traceback_from_frame()
-            self.last_exception = sys.exc_info()
+            exc_info = sys.exc_info()
+            if exc_info[1] is not self.leaving_frame:
+                self.last_traceback = byteop.traceback_from_frame()
+            self.leaving_frame = None
+            self.last_exception = exc_info
 
             # FIXME: dry code
             if not self.in_exception_processing:
@@ -792,7 +799,6 @@ class PyVM(object):
 
                 # PyErr_NormalizeException goes here
                 self.jump(block.handler)
-                self.last_traceback = exc_traceback
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
@@ -928,6 +934,7 @@ class PyVM(object):
                 # Not handled in this frame, so it continues in our caller, at
                 # the instruction that called us.
                 if isinstance(last_exception[1], BaseException):
+                    self.leaving_frame = last_exception[1]
                     raise last_exception[1]
                 raise last_exception[0]
             else:
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 437f5b0..785447e 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -359,6 +359,7 @@ class PyVMTraced(PyVM):
                 # Not handled in this frame, so it continues in our caller, at
                 # the instruction that called us.
                 if isinstance(last_exception[1], BaseException):
+                    self.leaving_frame = last_exception[1]
                     raise last_exception[1]
                 raise last_exception[0]
             else:
-- 
2.43.0


From b20dffefad58fad62aab1f2098f407cebdaf7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 024/101] fix: report an uncaught exception on stderr, and once
 it is known to be uncaught

---
 xpython/vm.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index bd8da48..4b564fa 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -464,23 +464,16 @@ class PyVM(object):
             self.eval_frame(frame)
         except PyVMUncaughtException:
             if self.last_traceback is not None:
-                print("Traceback (most recent call last):")
+                print("Traceback (most recent call last):", file=sys.stderr)
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(f"{self.last_exception[0].__name__}:", self.last_exception[1])
+                print(
+                    f"{self.last_exception[0].__name__}:",
+                    self.last_exception[1],
+                    file=sys.stderr,
+                )
             return 1
 
-        except Exception:
-            if self.last_traceback:
-                self.last_traceback.print_tb()
-                print(f"{self.last_exception[0].__name__}", end="")
-                le1 = self.last_exception[1]
-                tail = ""
-                if le1:
-                    tail = "\n".join(le1.args)
-                print(tail)
-            raise
-
         # Frame ran to normal completion... check some invariants
         if toplevel:
             if self.frames:  # pragma: no cover
-- 
2.43.0


From 6920bd2d72e6c6a06fc9337bf91310a772a56c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 025/101] fix: recognise comprehensions and generator
 expressions with free variables

---
 xpython/pyobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index cc61087..c61ae7b 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -170,7 +170,7 @@ class Function:
         # we will detect this and store True in this field when appropriate.
         if (
             not argdefs
-            and hasattr(self, "__name")
+            and hasattr(self, "__name__")
             and self.__name__.split(".")[-1] in COMPREHENSION_FN_NAMES
         ):
             self.has_dot_zero = True
-- 
2.43.0


From 4f247e33777bdc816c6edd0cd93e4eac4833244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 026/101] fix: a generator that finished or failed stays
 finished, and is not reentrant

---
 xpython/byteop/byteop24.py |  3 +++
 xpython/pyobj.py           | 29 +++++++++++++++++++++++++----
 xpython/vm.py              |  7 ++++---
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 1bce0cd..b6bc369 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -334,6 +334,9 @@ class ByteOp24(ByteOpBase):
         Pops TOS and yields it from a generator.
         """
         self.vm.return_value = self.vm.pop()
+        # There may have been a RETURN_VALUE, and this is in its "finally" clause.
+        if self.vm.frame.generator:
+            self.vm.frame.generator.finished = False
         return "yield"
 
     def IMPORT_STAR(self):
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index c61ae7b..bed0f46 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -561,12 +561,33 @@ class Generator(object):
     def send(self, value=None):
         if not self.started and value is not None:
             raise TypeError("Can't send non-None value to a just-started generator")
-        self.gi_frame.stack.append(value)
+        if self.gi_running:
+            raise ValueError("generator already executing")
+        if self.finished:
+            raise StopIteration
+
+        version = self.vm.version
+        # Before 2.5 "yield" was a statement, without a value, and before 3.10
+        # the first resumption has no value.
+        if version >= (3, 10) or (self.started and version >= (2, 5)):
+            self.gi_frame.stack.append(value)
         self.started = True
-        self.running = True
-        val = self.vm.resume_frame(self.gi_frame)
+        self.gi_running = True
+        try:
+            val = self.vm.resume_frame(self.gi_frame)
+        except StopIteration as exc:
+            self.finished = True
+            if version >= (3, 7):
+                raise RuntimeError("generator raised StopIteration") from exc
+            raise
+        except BaseException:
+            self.finished = True
+            raise
+        finally:
+            self.gi_running = False
         if self.finished:
-            self.running = False
+            if val is None:
+                raise StopIteration
             raise StopIteration(val)
         return val
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 4b564fa..327e4e3 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -441,9 +441,10 @@ class PyVM(object):
         else:
             frame.fallthrough = True
 
-        val = self.eval_frame(frame)
-        frame.f_back = None
-        return val
+        try:
+            return self.eval_frame(frame)
+        finally:
+            frame.f_back = None
 
     ##############################################
     # End Frame operations.
-- 
2.43.0


From a4fcc5ec021eb6bb3dc04b4aaf1e0b8e95aa9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 027/101] fix: "yield from" sends values to any subiterator

---
 xpython/byteop/byteop33.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 21d8770..5493346 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -5,7 +5,7 @@
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
-from xpython.pyobj import Function, Generator
+from xpython.pyobj import Function
 
 
 class ByteOp33(ByteOp32):
@@ -137,7 +137,7 @@ class ByteOp33(ByteOp32):
         x = self.vm.top
 
         try:
-            if not isinstance(x, Generator) or u is None:
+            if u is None:
                 # Call next on iterators.
                 retval = next(x)
             else:
@@ -153,6 +153,7 @@ class ByteOp33(ByteOp32):
                 self.vm.jump(self.vm.frame.f_lasti - 2)
             else:
                 self.vm.jump(self.vm.frame.f_lasti - 1)
+            self.vm.frame.generator.finished = False
             return "yield"
 
     # Python 3.3 docs describe a 3.4 MAKE_FUNCTION but seem to follow pre-3.3
-- 
2.43.0


From 4b01343a92915ae85377af211eed4b0a83212c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 028/101] fix: an exception raised in a handler is not replaced
 by the one it handles

---
 xpython/vm.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 327e4e3..3a9e59f 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -491,20 +491,16 @@ class PyVM(object):
         Pop any extra stack entries needed to clean up or
         finish a block.
         """
-        if block.type == "except-handler":
+        if block.type == "except-handler" and self.version >= (3, 11):
             offset = 3
         else:
             offset = 0
 
+        # An "except-handler" goes with the exception it handled. But it may be
+        # a different one, self.last_exception, that unwinds this block.
         while len(self.frame.stack) > block.level + offset:
             self.pop()
 
-        # Set self.last_exception which will filter its way to
-        # sys.last_exception. 3.11+ has a already set this.
-        if block.type == "except-handler" and self.version < (3, 11):
-            tb, value, exctype = self.popn(3)
-            self.last_exception = exctype, value, tb
-
     def parse_byte_and_args(self, byte_code, replay=False):
         """Parse 1 - 3 bytes of bytecode into
         an instruction and optionally arguments.
-- 
2.43.0


From 6bc66c4ac323902eeafeb1bac4a8a99388e46988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 029/101] fix: complete the END_FINALLY family of 3.8

---
 xpython/byteop/byteop38.py | 47 +++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index 5d9e824..1af3b22 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -80,16 +80,14 @@ class ByteOp38(ByteOp37):
             why = None
         elif isinstance(v, int):
             self.vm.jump(v)
-            why = "return"
+            why = None
         elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
             exctype = v
             val = self.vm.pop()
             tb = self.vm.pop()
             self.vm.last_exception = (exctype, val, tb)
 
-            raise self.vm.PyVMError("END_FINALLY not finished yet")
-            # FIXME: pop 3 more values
+            # Unwinding the exception handler block pops 3 more values.
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
@@ -100,8 +98,7 @@ class ByteOp38(ByteOp37):
         increments bytecode counter by delta. Used for calling the
         "finally" block as a "subroutine".
         """
-        # Is it f_lasti or the one after that
-        self.vm.push(self.vm.frame.f_lasti)
+        self.vm.push(self.vm.frame.f_lasti + 2)
         self.vm.jump(delta)
 
     def POP_FINALLY(self, preserve_tos: int):
@@ -121,22 +118,36 @@ class ByteOp38(ByteOp37):
         continue and return in the "finally" block.
 
         """
+        tos = self.vm.pop() if preserve_tos else None
         v = self.vm.pop()
-        if v is None:
-            why = None
+        if v is None or isinstance(v, int):
+            pass
         elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
-            val = self.vm.pop()
-            tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            # FIXME: pop 3 more values
-            why = "reraise"
-            raise self.vm.PyVMError("POP_FINALLY not finished yet")
+            block = self.vm.pop_block()
+            assert block.type == "except-handler"
+            self.vm.unwind_block(block)
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused POP_FINALLY")
-        return why
+        if preserve_tos:
+            self.vm.push(tos)
+
+    # Changed in 3.8
+    def WITH_CLEANUP_FINISH(self):
+        """Finishes cleaning up the stack when a `with` statement block exits.
+
+        TOS is the result of the __exit__() function call pushed by
+        WITH_CLEANUP_START. SECOND is None or an exception type.
+
+        If it is an exception type and the result is true, the exception is
+        dropped along with its handler block, and NULL is pushed for END_FINALLY.
+        """
+        exit_result = self.vm.pop()
+        exception = self.vm.pop()
+        if exception is not None and exit_result:
+            block = self.vm.pop_block()
+            assert block.type == "except-handler"
+            self.vm.unwind_block(block)
+            self.vm.push(None)
 
     # Changed from 2.4: Map value is TOS and map key is TOS1. Before,
     # those were reversed.
-- 
2.43.0


From 83ae9fc69b450023044d1a188de467491bfee7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 030/101] fix: ask whether __exit__() suppresses only if there
 is an exception

---
 xpython/byteop/byteop35.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index de405c9..1f903d7 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -191,11 +191,7 @@ class ByteOp35(ByteOp34):
         """
         exit_result = self.vm.pop()
         exception = self.vm.pop()
-        if (
-            exit_result
-            and type(exception) is type
-            and issubclass(exception, BaseException)
-        ):
+        if exception is not None and exit_result:
             # Pop the exception and replace with "silenced".
             self.vm.popn(1)
             self.vm.push("silenced")
-- 
2.43.0


From 409b7bed515df5ea9b5409ea214863c21d697c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 031/101] fix: implement 3.9's RERAISE and WITH_EXCEPT_START

---
 xpython/byteop/byteop310.py |  7 +++++++
 xpython/byteop/byteop311.py | 13 +++++++++++++
 xpython/byteop/byteop39.py  | 28 ++++++++++++----------------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/xpython/byteop/byteop310.py b/xpython/byteop/byteop310.py
index 26c9208..fce76d2 100644
--- a/xpython/byteop/byteop310.py
+++ b/xpython/byteop/byteop310.py
@@ -101,6 +101,13 @@ class ByteOp310(ByteOp39):
 
         self.vm.push(fn_vm)
 
+    def RERAISE(self, oparg: int) -> str:
+        """Re-raises the exception currently on top of the stack. If oparg is
+        non-zero, the line number of the exception is not that of this
+        instruction.
+        """
+        return super().RERAISE()
+
     # New in 3.10
 
     ##############################################################################
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 34ad4d6..ebd2b59 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -629,6 +629,19 @@ class ByteOp311(ByteOp310):
         self.vm.push(val)
 
 
+    def RERAISE(self, oparg: int) -> str:
+        """Re-raises the exception currently on top of the stack.  If
+        oparg is non-zero, pops an additional value from the stack
+        which is used to set f_lasti of the current frame.
+
+        """
+        # An exception was already set up to set: self.vm.last_exception,
+        # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
+        # All we need to do here is note an exception return.
+        for _ in range(oparg, 0, -1):
+            self.vm.frame.block_stack.pop()
+        return "exception"
+
     def RESUME(self, where: int):
         """
         A no-op. Performs internal tracing, debugging and optimization checks.
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index ef53bdf..9cea56e 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -48,24 +48,20 @@ class ByteOp39(ByteOp38):
     #   already been performed in parse_byte_and_args().
     ##############################################################################
 
-    def RERAISE(self, oparg: int) -> str:
-        """Re-raises the exception currently on top of the stack.  If
-        oparg is non-zero, pops an additional value from the stack
-        which is used to set f_lasti of the current frame.
-
-        """
-        # An exception was already set up to set: self.vm.last_exception,
-        # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
-        # All we need to do here is note an exception return.
-        for _ in range(oparg, 0, -1):
-            self.vm.frame.block_stack.pop()
-        return "exception"
+    # Changed in 3.10 and 3.11
+    def RERAISE(self) -> str:
+        """Re-raises the exception currently on top of the stack."""
+        tb, val, exctype = self.vm.popn(3)
+        self.vm.last_exception = (exctype, val, tb)
+        return "reraise"
 
     def WITH_EXCEPT_START(self) -> None:
-        # FIXME
-        raise RuntimeError("WITH_EXCEPT_START not implemented yet")
-        pass
-
+        """Calls the function in position 7 on the stack with the top three
+        items on the stack as arguments. Used to implement the call
+        context_manager.__exit__(*exc_info()) when an exception has
+        occurred in a with statement.
+        """
+        self.vm.push(self.vm.peek(7)(self.vm.top, self.vm.peek(2), self.vm.peek(3)))
 
     def LOAD_ASSERTION_ERROR(self) -> None:
         """
-- 
2.43.0


From 9ca157c68ed45a5f908ea30b93ac4af7fde12528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 032/101] fix: the name of a 3.3-3.5 function is not its
 qualified name

---
 xpython/byteop/byteop33.py | 5 +++--
 xpython/byteop/byteop34.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 5493346..3327ca2 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -24,7 +24,7 @@ class ByteOp33(ByteOp32):
         which are found below the cells.
         """
         default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-        code, name = self.vm.popn(2)
+        code, qualname = self.vm.popn(2)
         closure = self.vm.pop()
 
         if kw_default_count:
@@ -54,7 +54,7 @@ class ByteOp33(ByteOp32):
         globs = self.vm.frame.f_globals
 
         fn = Function(
-            name=name,
+            name=qualname.split(".")[-1],
             code=code,
             globs=globs,
             argdefs=tuple(defaults),
@@ -62,6 +62,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname if self.vm.version >= (3, 4) else None,
         )
 
         self.vm.push(fn)
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 4f52a4b..69301da 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -70,7 +70,8 @@ class ByteOp34(ByteOp33):
 
         default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
 
-        name = self.vm.pop()
+        qualname = self.vm.pop()
+        name = qualname.split(".")[-1]
         code = self.vm.pop()
         if annotate_count:
             annotate_names = self.vm.pop()
@@ -114,7 +115,7 @@ class ByteOp34(ByteOp33):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
-            # FIXME: figure out qualname
+            qualname=qualname,
         )
 
         if (
-- 
2.43.0


From fa76188e3fe5ebcaf66c594dae1d54d610e898ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 033/101] fix: return from inside an except clause of 3.8-3.10
 keeps the value

---
 xpython/byteop/byteop311.py |  4 ++++
 xpython/byteop/byteop38.py  | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index ebd2b59..036979a 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -21,6 +21,7 @@ from xpython.byteop.byteop36 import (
 )
 from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL
+from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop310 import ByteOp310
 from xpython.pyobj import Function
 
@@ -629,6 +630,9 @@ class ByteOp311(ByteOp310):
         self.vm.push(val)
 
 
+    # The stack effect is not that of 3.8-3.10.
+    POP_EXCEPT = ByteOp32.POP_EXCEPT
+
     def RERAISE(self, oparg: int) -> str:
         """Re-raises the exception currently on top of the stack.  If
         oparg is non-zero, pops an additional value from the stack
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index 1af3b22..fe7ba86 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -131,6 +131,21 @@ class ByteOp38(ByteOp37):
         if preserve_tos:
             self.vm.push(tos)
 
+    # Changed in 3.8
+    def POP_EXCEPT(self):
+        """
+        Removes one block from the block stack. The popped block must be an
+        exception handler block, as implicitly created when entering an except
+        handler. In addition, the last three values are popped from the frame
+        stack. Below them there can be a value to return.
+        """
+        block = self.vm.pop_block()
+        if block.type != "except-handler":
+            raise self.vm.PyVMError(
+                f"popped block is not an except handler; is {block}"
+            )
+        self.vm.popn(3)
+
     # Changed in 3.8
     def WITH_CLEANUP_FINISH(self):
         """Finishes cleaning up the stack when a `with` statement block exits.
-- 
2.43.0


From 6ef5cc4ced708294225006ac897bb2c827994ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 034/101] fix: a return is still pending after a yield in its
 finally clause

---
 xpython/byteop/byteop24.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index b6bc369..2326863 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -382,6 +382,9 @@ class ByteOp24(ByteOpBase):
             why = v
             if why in ("return", "continue"):
                 self.vm.return_value = self.vm.pop()
+            if why == "return" and self.vm.frame.generator:
+                # There may have been a "yield" since the RETURN_VALUE.
+                self.vm.frame.generator.finished = True
             if why == "silenced":  # self.version_info[:2] >= (3, 0)
                 block = self.vm.pop_block()
                 assert block.type == "except-handler"
-- 
2.43.0


From 3ad6ffa530b27f2b0da0ebb9e41ead86db78b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 035/101] fix: defaults and annotations of 3.1-3.5 functions

MAKE_FUNCTION and MAKE_CLOSURE took annotations, defaults and the defaults of
keyword-only parameters off the stack in an order that was not the compiler's, and
miscounted annotations, losing a "return" annotation or failing an assertion.
---
 xpython/byteop/byteop32.py | 74 ++++++++++++++------------------------
 xpython/byteop/byteop33.py | 51 ++------------------------
 xpython/byteop/byteop34.py | 32 +----------------
 3 files changed, 29 insertions(+), 128 deletions(-)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index db7b6c9..1d08e2f 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -43,6 +43,30 @@ class ByteOp32(ByteOp27):
     def convert_native_to_Function(self, frame, func):
         assert inspect.isfunction(func) or isinstance(func, Function)
 
+    def pop_function_parts(self, argc: int) -> tuple:
+        """Pops what MAKE_FUNCTION and MAKE_CLOSURE find below the code object (and
+        closure): default values, the default values of keyword-only parameters and
+        annotations.  Returns these as a list and two dictionaries.
+
+        Before 3.4 the defaults of keyword-only parameters come first, and therefore
+        are below the other ones.
+        """
+        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
+
+        annotations = {}
+        if annotate_count:
+            annotate_names = self.vm.pop()
+            annotations = dict(zip(annotate_names, self.vm.popn(annotate_count)))
+
+        if self.version_info[:2] < (3, 4):
+            defaults = self.vm.popn(default_count)
+            kw_pairs = self.vm.popn(2 * kw_default_count)
+        else:
+            kw_pairs = self.vm.popn(2 * kw_default_count)
+            defaults = self.vm.popn(default_count)
+
+        return defaults, dict(zip(kw_pairs[::2], kw_pairs[1::2])), annotations
+
     def DELETE_DEREF(self, i):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
@@ -94,30 +118,8 @@ class ByteOp32(ByteOp27):
         variables. The function asl has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
         closure, code = self.vm.popn(2)
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_parts(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -155,33 +157,9 @@ class ByteOp32(ByteOp27):
 
         Changed from Python 2.4.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         code = self.vm.pop()
         name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_names)
-            assert n == len(annotate_objects)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_parts(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 3327ca2..2f813a1 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -1,8 +1,6 @@
 # -*- coding: utf-8 -*-
 """Byte Interpreter operations for Python 3.3
 """
-
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.pyobj import Function
@@ -23,31 +21,9 @@ class ByteOp33(ByteOp32):
         variables. The function also has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
         code, qualname = self.vm.popn(2)
         closure = self.vm.pop()
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_parts(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -83,35 +59,12 @@ class ByteOp33(ByteOp32):
           3.0..3.2)
         * the qualified name of the function (at TOS if 3.3+)
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         # The string function name does not seem to be used.
         # In the 3.4, it is dropped.
         self.vm.pop()
         code = self.vm.pop()
         name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_objects = self.vm.popn(annotate_count)
-            n = len(annotate_objects)
-            assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        defaults, kwdefaults, annotations = self.pop_function_parts(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 69301da..77a63b2 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -4,7 +4,6 @@
 import inspect
 import types
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xdis.version_info import IS_PYPY, PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
@@ -68,39 +67,10 @@ class ByteOp34(ByteOp33):
         * the qualified name of the function (at TOS)
         """
 
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         qualname = self.vm.pop()
         name = qualname.split(".")[-1]
         code = self.vm.pop()
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_objects)
-            # We can annotate a function return value, but
-            # that does is not a parameter object and not
-            # listed in annotate_objects
-            if annotate_names[-1] == "return":
-                assert n == len(annotate_names) - 1
-            else:
-                assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        defaults, kwdefaults, annotations = self.pop_function_parts(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
-- 
2.43.0


From 8d37ea9d5dc1c7f978bbfa189955e731df37822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 036/101] fix: keyword arguments and unpacked mappings in calls

Keyword arguments were passed on in reverse order; a keyword argument that was
given twice silently won; what came after "**" was not checked to be a mapping
(or had to be a dict), and was dropped when empty, or took the function off
the stack with it; CALL_FUNCTION_VAR_KW of 3.5 had its operands in the order of 3.4.
---
 xpython/byteop/byteop.py   | 40 ++++++++++++++++++++++++++++++-------
 xpython/byteop/byteop35.py | 41 ++++++++++++++++++--------------------
 xpython/byteop/byteop36.py | 29 +++++++--------------------
 3 files changed, 59 insertions(+), 51 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index fc7a9aa..973c439 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -333,18 +333,44 @@ class ByteOpBase(object):
         self.vm.push(retval)
 
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
-        named_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            named_args[key] = val
-        named_args.update(keyword_args)
+        named_args = self.pop_keyword_args(len_kw)
         pos_args = self.vm.popn(len_pos)
-        pos_args.extend(var_args)
-
         func = self.vm.pop()
+
+        return self.call_function_unpacking(
+            func, pos_args, named_args, var_args, keyword_args
+        )
+
+    def call_function_unpacking(
+        self, func, pos_args: list, named_args: dict, var_args, keyword_args
+    ) -> Any:
+        """Calls func(*pos_args, *var_args, **named_args, **keyword_args)."""
+        keyword_args = self.merge_keywords({}, keyword_args)
+        pos_args.extend(var_args)
+        self.merge_keywords(named_args, keyword_args)
         return self.call_function_with_args_resolved(func, pos_args, named_args)
 
+    def pop_keyword_args(self, count: int) -> dict:
+        """Pops `count` keyword arguments, a name and a value each."""
+        pairs = self.vm.popn(2 * count)
+        return dict(zip(pairs[::2], pairs[1::2]))
+
+    def merge_keywords(self, named_args: dict, mapping) -> dict:
+        """Adds the arguments of ``**mapping`` in a call to `named_args`. A keyword
+        argument can be given only once."""
+        if not hasattr(mapping, "keys"):
+            raise TypeError(
+                "argument after ** must be a mapping, not %s" % type(mapping).__name__
+            )
+        for key in mapping.keys():
+            if key in named_args:
+                raise TypeError(
+                    f"got multiple values for keyword argument {key!r}"
+                )
+            named_args[key] = mapping[key]
+        return named_args
+
     def convert_native_to_Function(self, frame, func: Callable) -> Callable:
         assert inspect.isfunction(func) or isinstance(func, Function)
         slots = {"kwdefaults": {}, "annotations": {}}
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 1f903d7..4125e2b 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -243,23 +243,13 @@ class ByteOp35(ByteOp34):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        # In 3.5 fn_pos may be always 1 which meant the stack
-        # entry after the mappings. In 3.6 this function-position
-        # encoding was dropped. But we'll follow the spec.
+        # The function is left where it is, below its other arguments.
         fn_pos, count = divmod(oparg, 256)
-        fn_pos -= 1
 
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_KW
-        self.vm.push(func)
-        if kwargs:
-            self.vm.push(kwargs)
+        kwargs = {}
+        for mapping in self.vm.popn(count):
+            self.merge_keywords(kwargs, mapping)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """Calls a callable object, similarly to `CALL_FUNCTION_VAR` and
@@ -283,15 +273,22 @@ class ByteOp35(ByteOp34):
         keyword arguments.
 
         """
-        keyword_args = {}
+        return self.call_function_var(argc, {})
+
+    def CALL_FUNCTION_VAR_KW(self, argc: int):
+        """Calls a callable object with a mapping of keyword arguments on top of
+        what CALL_FUNCTION_VAR expects.
+
+        Changed in version 3.5 like CALL_FUNCTION_VAR.
+        """
+        return self.call_function_var(argc, self.vm.pop())
+
+    def call_function_var(self, argc: int, keyword_args):
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            keyword_args[key] = val
+        named_args = self.pop_keyword_args(len_kw)
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
-        pos_args.extend(var_args)
         func = self.vm.pop()
-        self.call_function_with_args_resolved(
-            func, pos_args=pos_args, named_args=keyword_args
+        return self.call_function_unpacking(
+            func, pos_args, named_args, var_args, keyword_args
         )
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 9e8b334..0e41b94 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -77,10 +77,8 @@ class ByteOp36(ByteOp35):
         self.version_info = Version_info(3, 6, 14, "final", 0)
 
     def call_function_kw(self, argc: int):
-        namedargs = {}
         namedargs_tup = self.vm.pop()
-        for name in reversed(namedargs_tup):
-            namedargs[name] = self.vm.pop()
+        namedargs = dict(zip(namedargs_tup, self.vm.popn(len(namedargs_tup))))
 
         lenPos = argc - len(namedargs_tup)
         posargs = self.vm.popn(lenPos)
@@ -108,23 +106,10 @@ class ByteOp36(ByteOp35):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        count = oparg
-        fn_pos = 0
-
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-
-        posargs = self.vm.pop()
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_EX
-        self.vm.push(func)
-        self.vm.push(posargs)
-        if kwargs:
-            self.vm.push(kwargs)
+        kwargs = {}
+        for mapping in self.vm.popn(oparg):
+            self.merge_keywords(kwargs, mapping)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_KW(self, argc: int):
         """
@@ -282,8 +267,8 @@ class ByteOp36(ByteOp35):
         value returned by the callable object.
         """
         assert isinstance(flags, int)
-        namedargs = self.vm.pop() if flags & 1 else {}
-        posargs = self.vm.pop()
+        namedargs = self.merge_keywords({}, self.vm.pop()) if flags & 1 else {}
+        posargs = list(self.vm.pop())
         func = self.vm.pop()
         self.call_function_with_args_resolved(func, posargs, namedargs)
 
-- 
2.43.0


From e9ce5d5c6f9fc78bb40def388fc37a072f54a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:52 +0000
Subject: [PATCH 037/101] fix: unpacking of mappings in dict displays and
 3.9/3.10 calls

---
 xpython/byteop/byteop35.py | 8 +++++++-
 xpython/byteop/byteop39.py | 9 ++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 4125e2b..2e3e3c5 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -36,6 +36,12 @@ class ByteOp35(ByteOp34):
         elts = self.vm.popn(count)
         self.vm.push(container_fn(e for elt in elts for e in elt))
 
+    def update_dict(self, destination: dict, mapping) -> None:
+        """Adds the items of ``**mapping`` in a dictionary display."""
+        if not hasattr(mapping, "keys"):
+            raise TypeError(f"'{type(mapping).__name__}' object is not a mapping")
+        destination.update(mapping)
+
     def get_awaitable_iter(self, o):
         # This helper function returns an awaitable for `o`:
         #    - `o` if `o` is a coroutine-object;
@@ -233,7 +239,7 @@ class ByteOp35(ByteOp34):
         elts = self.vm.popn(count)
         result = {}
         for d in elts:
-            result.update(d)
+            self.update_dict(result, d)
         self.vm.push(result)
 
     def BUILD_MAP_UNPACK_WITH_CALL(self, oparg):
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 9cea56e..081e267 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -121,18 +121,13 @@ class ByteOp39(ByteOp38):
     def DICT_MERGE(self, i) -> None:
         """Like DICT_UPDATE but raises an exception for duplicate keys."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        dups = set(destination.keys()) & set(TOS.keys())
-        if bool(dups):
-            raise RuntimeError(f"Duplicate keys '{dups}' in DICT_MERGE")
-        destination.update(TOS)
+        self.merge_keywords(destination, TOS)
 
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        destination.update(TOS)
+        self.update_dict(destination, TOS)
-- 
2.43.0


From d2d81895a911efbb061e869e16c0d15ba2e9a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 038/101] fix: positional-only parameters and parameters named
 self or func

---
 xpython/pyobj.py           | 4 ++--
 xpython/stdlib/inspect2.py | 2 +-
 xpython/stdlib/inspect3.py | 9 ++++++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index bed0f46..5c5c70a 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -241,7 +241,7 @@ class Function:
         else:
             return self
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.has_dot_zero:
             # D'oh! http://bugs.python.org/issue19611 Py2 doesn't know how to
             # inspect set comprehensions, dict comprehensions, or generator
@@ -318,7 +318,7 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.im_self is not None:
             return self.im_func(self.im_self, *args, **kwargs)
         else:
diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 983ec6d..093ca53 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -116,7 +116,7 @@ def getargspec(func) -> ArgSpec:
 ArgInfo = namedtuple("ArgInfo", "args varargs keywords locals")
 
 
-def getcallargs(func, *positional, **named):
+def getcallargs(func, /, *positional, **named):
     """Get the mapping of arguments to values.
 
     A dict is returned, with keys the function argument names (including the
diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index 35d5a85..bfe8c38 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -251,12 +251,19 @@ def getcallargs(*func_and_positional, **named):
         arg2value[args[i]] = positional[i]
     if varargs:
         arg2value[varargs] = tuple(positional[n:])
-    possible_kwargs = set(args + kwonlyargs)
+    # The names of positional-only parameters are free for use in "varkw".
+    num_posonly = getattr(func.__code__, "co_posonlyargcount", 0) or 0
+    possible_kwargs = set(args[num_posonly:] + kwonlyargs)
     if varkw:
         arg2value[varkw] = {}
     for kw, value in named.items():
         if kw not in possible_kwargs:
             if not varkw:
+                if kw in args:
+                    raise TypeError(
+                        f"{f_name}() got some positional-only arguments passed as"
+                        f" keyword arguments: {kw!r}"
+                    )
                 raise TypeError(
                     f"{f_name}() got an unexpected keyword argument {kw!r}"
                 )
-- 
2.43.0


From 6dbff30a48cb52371442fb93049fe447f13fe3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 039/101] fix: calls of methods, and of callable objects that
 resemble methods

---
 xpython/byteop/byteop.py | 12 +++++++-----
 xpython/pyobj.py         |  6 +++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 973c439..28b1ae9 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, copy_module
+from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
 
@@ -147,19 +147,21 @@ class ByteOpBase(object):
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
-        if hasattr(func, "im_func"):
+        if isinstance(func, Method):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
             # The first parameter must be the correct type.
-            if not isinstance(pos_args[0], func.im_class):
+            elif not (pos_args and isinstance(pos_args[0], func.im_class)):
                 raise TypeError(
                     "unbound method %s() must be called with %s instance "
-                    "as first argument (got %s instance instead)"
+                    "as first argument (got %s instead)"
                     % (
                         func.im_func.func_name,
                         func.im_class.__name__,
-                        type(pos_args[0]).__name__,
+                        type(pos_args[0]).__name__ + " instance"
+                        if pos_args
+                        else "nothing",
                     )
                 )
             func = func.im_func
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 5c5c70a..faa65ef 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -296,10 +296,10 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = obj.__doc__
-        self.im_self = obj
+        self.__doc__ = getattr(func, "__doc__", None)
+        self.im_self = self.__self__ = obj
         self.im_class = _class
-        self.im_func = func
+        self.im_func = self.__func__ = func
 
         if hasattr(func, "func_code"):
             self.func_code = func.func_code
-- 
2.43.0


From 19a78b4583d77257b30253a9239086840d86ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 040/101] fix: super()

---
 xpython/builtins.py         | 68 +++++++++++--------------------------
 xpython/byteop/byteop.py    |  2 +-
 xpython/byteop/byteop311.py |  2 +-
 3 files changed, 22 insertions(+), 50 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 13771a6..f4edd22 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -4,8 +4,6 @@ A place to implement built-in functions.
 We use the bytecode for these when doing cross-version interpreting
 """
 
-from typing import Any
-
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
 from xpython.pyobj import Cell, Function, make_cell
@@ -112,55 +110,29 @@ def build_class(opc, func, name, *bases, **kwds):
     return cls
 
 
-# FIXME: change to return a true Proxy object.
-def builtin_super(self: Any, typ=None, obj=None):
+def builtin_super(frame, *args) -> super:
     """
-    super() but first argument is filled in via interpreter
+    super(), whose arguments, when not given, are the class in which the code of
+    `frame` is defined and the first argument of that code.
     """
-    cells = self.cells
-    if hasattr(cells, "__class__"):
-        cell = cells["__class__"]
-    elif hasattr(cells, "__classcell__"):
-        cell = cells["__classcell__"]
-
-    start_class = cell.get()
-    return WrappedSuperClass(start_class, typ, obj)
-
-    return None
-
-
-class WrappedSuperClass(object):
-    """
-    builtin "super" object return type. This is a
-    proxy object that delegates method calls to a parent or sibling class of ``type``.
-    See https://docs.python.org/3.7/library/functions.html#super
-    """
-
-    def __init__(self, start_class, typ, obj: Any):
-        if obj is not None:
-            assert isinstance(obj, typ)
-
-        self.type_given = typ is not None
-        if self.type_given:
-            start_class = typ
-        self.start_class = start_class
-        self.superclass = start_class.__mro__[1]
-        self.__orig_init__ = self.superclass.__init__
-        self.__init__ = self.init
-        self.object = obj
-        self.type = typ
-
-    def __repr__(self):
-        if self.type_given is not None and self.object is None:
-            obj_str = "NULL"
-        elif self.object is not None:
-            obj_str = f"<{self.object.__class__.__name__} object>"
+    if not args:
+        code = frame.f_code
+        if not code.co_argcount:
+            raise RuntimeError("super(): no arguments")
+        name = code.co_varnames[0]
+        cells = frame.cells
+        if name in cells and not cells[name].is_empty:
+            first = cells[name].get()
+        elif name in frame.f_locals:
+            first = frame.f_locals[name]
         else:
-            obj_str = repr(self.type)
-        return f"<super: <class '{self.start_class.__name__}'>, {obj_str}>"
-
-    def init(self, *args, **kwargs):
-        return self.__orig_init__(self, *args, **kwargs)
+            raise RuntimeError("super(): arg[0] deleted")
+        if "__class__" not in cells:
+            raise RuntimeError("super(): __class__ cell not found")
+        if cells["__class__"].is_empty:
+            raise RuntimeError("super(): empty __class__ cell")
+        args = (cells["__class__"].get(), first)
+    return super(*args)
 
 
 # From Pypy 3.6
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 28b1ae9..5ea1d2a 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -327,7 +327,7 @@ class ByteOpBase(object):
         ):
             log.debug(f"calling native function {func.__name__}")
         elif inspect.isclass(func):
-            if func.__name__ == "super":
+            if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 036979a..1960219 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -231,7 +231,7 @@ class ByteOp311(ByteOp310):
         ):
             log.debug(f"calling native function {func.__name__}")
         elif inspect.isclass(func):
-            if func.__name__ == "super":
+            if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
-- 
2.43.0


From c1c916adb8b67be5f943f38577f480583cebcd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 041/101] fix: classes with a metaclass, class keywords or the
 cell of __class__

---
 xpython/builtins.py | 66 +++++++++++++++++++++++++++++----------------
 xpython/pyobj.py    | 26 ++++++++++--------
 xpython/vm.py       |  5 ++--
 3 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index f4edd22..013db86 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -4,9 +4,11 @@ A place to implement built-in functions.
 We use the bytecode for these when doing cross-version interpreting
 """
 
+import types
+
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
-from xpython.pyobj import Cell, Function, make_cell
+from xpython.pyobj import Cell, Function
 
 
 def func_code(func):
@@ -41,6 +43,9 @@ def build_class(opc, func, name, *bases, **kwds):
     if not isinstance(name, str):
         raise TypeError("name is not a string")
 
+    orig_bases = bases
+    bases = types.resolve_bases(bases)
+
     metaclass = kwds.pop("metaclass", None)
 
     if metaclass is None:
@@ -75,41 +80,56 @@ def build_class(opc, func, name, *bases, **kwds):
     # between Python 3.5 running 3.4 or earlier.
     frame = func._vm.make_frame(
         code=class_body_code,
+        # Up to Python 3.3, the body gets the namespace as an argument.
+        callargs={"__locals__": namespace} if class_body_code.co_argcount else {},
         f_globals=func.func_globals,
         f_locals=namespace,
         closure=func.__closure__,
     )
 
-    # rocky: cell is the return value of a function where?
+    # The body returns the cell of __class__, when some method needs that.
     cell = func._vm.eval_frame(frame)
 
-    # Add any class variables that may have been added in running class_body_code.
-    # See test_attribute_access.py for a simple example that needs the update below.
-    namespace.update(frame.f_locals)
-
-    # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
-    # but needs a builtin cell object. make_cell() can do this.
-    if "__classcell__" in namespace and metaclass == type:
-        namespace["__classcell__"] = make_cell(None)
+    # The builtin "type" can't deal with a xpython.pyobj.Cell object
+    # but needs a builtin cell object, and sets its contents.
+    if isinstance(cell, Cell) and "__classcell__" in namespace:
+        namespace["__classcell__"] = cell.native
 
-    try:
-        cls = metaclass(name, bases, namespace)
-    except TypeError:
-        # For mysterious reasons the above can raise a:
-        #  __init__() takes *n* positional arguments but *n+1* were given.
-        # In particular for:
-        #     class G(Generic[T]):
-        #        pass
-        import types
-
-        cls = types.new_class(name, bases, kwds, exec_body=lambda ns: namespace)
-        pass
+    if bases is not orig_bases:
+        namespace["__orig_bases__"] = orig_bases
+    make_implicit_methods(namespace)
+    cls = metaclass(name, bases, namespace, **kwds)
 
     if isinstance(cell, Cell):
-        cell.set(cls)
+        if isinstance(cls, type) and func._vm.version >= (3, 8):
+            if cell.is_empty:
+                raise RuntimeError(
+                    f"__class__ not set defining {name!r} as {cls!r}. "
+                    "Was __classcell__ propagated to type.__new__?"
+                )
+            if cell.get() is not cls:
+                raise TypeError(
+                    f"__class__ set to {cell.get()!r} defining {name!r} as {cls!r}"
+                )
+        else:
+            cell.set(cls)
     return cls
 
 
+def make_implicit_methods(namespace) -> None:
+    """
+    Makes the functions of a class's `namespace` static methods or class methods
+    that are such without a decorator. "type" does that for its own functions only.
+    """
+    for name, kind in (
+        ("__new__", staticmethod),
+        ("__init_subclass__", classmethod),
+        ("__class_getitem__", classmethod),
+    ):
+        if name in namespace and isinstance(namespace[name], Function):
+            namespace[name] = kind(namespace[name])
+
+
 def builtin_super(frame, *args) -> super:
     """
     super(), whose arguments, when not given, are the class in which the code of
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index faa65ef..1edaf83 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -337,33 +337,37 @@ class Cell:
 
         1. In order to create actual FunctionType functions, we have to have
            actual cell objects, which are difficult to make. See the twisty
-           double-lambda in __init__.
+           double-lambda in make_cell().
 
-        2. Actual cell objects can't be modified, so to implement STORE_DEREF,
-           we store a one-element list in our cell, and then use [0] as the
-           actual value.
+        2. The value is kept in an actual cell, `native`, which is what builtin
+           functions like "type" can deal with.
 
     """
 
     def __init__(self, *value) -> None:
+        self.native = make_cell(None)
         # Without a value, the variable is not bound (yet).
         if value:
-            (self.contents,) = value
+            self.set(*value)
+        else:
+            self.clear()
 
     @property
     def is_empty(self) -> bool:
-        return not hasattr(self, "contents")
+        try:
+            self.native.cell_contents
+        except ValueError:
+            return True
+        return False
 
     def get(self):
-        if self.is_empty:
-            raise ValueError("Cell is empty")
-        return self.contents
+        return self.native.cell_contents
 
     def set(self, value) -> None:
-        self.contents = value
+        self.native.cell_contents = value
 
     def clear(self) -> None:
-        del self.contents
+        del self.native.cell_contents
 
 
 class Block(object):
diff --git a/xpython/vm.py b/xpython/vm.py
index 3a9e59f..e5586e5 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -373,9 +373,10 @@ class PyVM(object):
 
         # Implement NEWLOCALS flag. See Objects/frameobject.c in CPython.
         if code.co_flags & CO_NEWLOCALS:
-            f_locals = {"__locals__": {}}
+            f_locals = {}
 
-        f_locals.update(callargs)
+        if callargs:
+            f_locals.update(callargs)
 
         # create a localsplusnames table that resolves duplicates.
         varnames = code.co_varnames
-- 
2.43.0


From b608de0883082edc0e660f715627c1c4e27ae096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 042/101] fix: type() with three arguments left its mark on the
 namespace it is given

---
 xpython/byteop/byteop.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 5ea1d2a..db4c5e3 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -13,7 +13,7 @@ from typing import Any, Callable
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
-from xpython.builtins import build_class, builtin_super
+from xpython.builtins import build_class, builtin_super, make_implicit_methods
 from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
@@ -306,12 +306,12 @@ class ByteOpBase(object):
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
         elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
+            if isinstance(pos_args[2], dict):
+                # Set __module__
+                pos_args[2] = namespace = dict(pos_args[2])
+                if "__name__" in frame.f_globals:
+                    namespace.setdefault("__module__", frame.f_globals["__name__"])
+                make_implicit_methods(namespace)
 
         if (
             inspect.isfunction(func)
-- 
2.43.0


From 304ad1067f922ff5d948873a378374e62cb0c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 043/101] fix: metaclasses of 2.x classes

---
 xpython/byteop/byteop24.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 2326863..8df6f6f 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -11,6 +11,7 @@ from collections import namedtuple
 from copy import copy
 from typing import Any, Optional
 
+from xpython.builtins import make_implicit_methods
 from xpython.byteop.byteop import (
     ByteOpBase,
     fmt_binary_op,
@@ -414,16 +415,16 @@ class ByteOp24(ByteOpBase):
         tuple of the names of the base classes, and TOS2 the class name.
         """
         name, bases, methods = self.vm.popn(3)
-        # Note: type() wants to only create new-style classes, while
-        # bases might include only old-style classes. This will
-        # trigger this error: TypeError: a new-style class can't have
-        # only classic bases So what we'll do is throw in "object" so
-        # there is at least one new-style class.
-        try:
-            klass = type(name, bases, methods)
-        except TypeError:
-            klass = type(name, tuple([object] + list(bases)), methods)
-        self.vm.push(klass)
+        # Note: there are no old-style classes; without bases we create a
+        # new-style class too.
+        if "__metaclass__" in methods:
+            metaclass = methods["__metaclass__"]
+        elif bases:
+            metaclass = type(bases[0])
+        else:
+            metaclass = self.vm.frame.f_globals.get("__metaclass__", type)
+        make_implicit_methods(methods)
+        self.vm.push(metaclass(name, bases, methods))
 
     def STORE_NAME(self, name):
         """Implements name = TOS. namei is the index of name in the attribute
-- 
2.43.0


From e059c5f40ebbdab9eae42058fa84097e88a06adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 044/101] fix: closures in bytecode files

---
 xpython/execfile.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 0b1cc7d..ca004e4 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -65,6 +65,31 @@ def source_is_older(source_path: str, bytecode_path: str) -> Optional[bool]:
         return None
 
 
+def closure_names_agree(code, enclosing=frozenset()) -> bool:
+    """
+    Check that the free variables of `code`, and of the code objects inside it, are
+    variables of the scopes around them.
+    """
+    if not enclosing.issuperset(code.co_freevars):
+        return False
+    scope = frozenset(code.co_freevars) | frozenset(code.co_cellvars)
+    return all(
+        closure_names_agree(const, scope)
+        for const in code.co_consts
+        if hasattr(const, "co_freevars")
+    )
+
+
+def swap_closure_names(code) -> None:
+    """
+    Exchange co_freevars and co_cellvars in `code` and the code objects inside it.
+    """
+    code.co_freevars, code.co_cellvars = code.co_cellvars, code.co_freevars
+    for const in code.co_consts:
+        if hasattr(const, "co_freevars"):
+            swap_closure_names(const)
+
+
 def exec_code_object(
     code,
     env,
@@ -234,6 +259,10 @@ def run_python_file(
                         "We only support byte code for %s: %r is %s bytecode"
                         % (mess, filename, version_tuple_to_str(python_version))
                     )
+                if not closure_names_agree(code):
+                    # Some releases of xdis read co_cellvars where co_freevars is
+                    # stored, and the other way around.
+                    swap_closure_names(code)
                 main_mod.__file__ = code.co_filename
                 make_compatible_builtins(main_mod.__builtins__.__dict__, python_version)
 
-- 
2.43.0


From 9621494a859865b9fb5e4aea169bcaae20a07dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 045/101] fix: frames missing in the report of a TypeError

---
 xpython/byteop/byteop24.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 8df6f6f..17901fc 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -926,12 +926,7 @@ class ByteOp24(ByteOpBase):
         off the stack, calls the callable object with those arguments,
         and pushes the return value returned by the callable object.
         """
-        try:
-            return self.call_function(argc, var_args=[], keyword_args={})
-        except TypeError as exc:
-            tb = self.vm.last_traceback = self.traceback_from_frame()
-            self.vm.last_exception = (TypeError, exc, tb)
-            return "exception"
+        return self.call_function(argc, var_args=[], keyword_args={})
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """
-- 
2.43.0


From ebcdffcbdaf476e22cc37a633407ec01e571110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 046/101] fix: line of an exception that is raised again in the
 report of it

---
 xpython/byteop/byteop24.py |  2 +-
 xpython/pyobj.py           |  6 +++++-
 xpython/vm.py              | 20 ++++++++++++++++++++
 xpython/vmtrace.py         |  1 +
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 17901fc..5b31f0b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -902,7 +902,7 @@ class ByteOp24(ByteOpBase):
 
         self.vm.last_exception = (exctype, val, tb)
 
-        if tb:
+        if tb or argc == 0:
             return "reraise"
         else:
             return "exception"
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 1edaf83..6b397a2 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -386,7 +386,7 @@ class Block(object):
     int b_level;                /* value stack level to pop to */
 
     In addition, the block of an exception handler notes in `exception` what it
-    handles.
+    handles, and in `traceback` where that was raised.
     """
 
     def __init__(self, type, handler, level) -> None:
@@ -394,6 +394,7 @@ class Block(object):
         self.handler = handler
         self.level = level
         self.exception = None
+        self.traceback = None
         return
 
     def __repr__(self) -> str:
@@ -466,6 +467,9 @@ class Frame(object):
         self.block_stack = []
         # The exception caught last in this frame (Python 2.x only).
         self.handled_exception = None
+        # The exceptions caught in this frame, as many as there can be blocks, each
+        # with the traceback of where it was raised (Python 2.x only).
+        self.caught = collections.deque(maxlen=20)
         self.generator = None
         self.version = version
 
diff --git a/xpython/vm.py b/xpython/vm.py
index e5586e5..3ea43d8 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -318,6 +318,21 @@ class PyVM(object):
             frame = frame.f_back
         return (None, None, None)
 
+    def restore_traceback(self):
+        """Note for an exception that is raised again where it was raised first."""
+        value = self.last_exception[1]
+        frame = self.frame
+        while frame:
+            for caught, traceback in reversed(frame.caught):
+                if caught is value:
+                    self.last_traceback = traceback
+                    return
+            for block in reversed(frame.block_stack):
+                if block.traceback and block.exception[1] is value:
+                    self.last_traceback = block.traceback
+                    return
+            frame = frame.f_back
+
     def jump(self, jump):
         """Move the bytecode pointer to `jump`, so it will execute next,
         However we subtract one from the offset, because fetching the
@@ -764,6 +779,9 @@ class PyVM(object):
             ):
                 if why == "exception":
                     self.frame.handled_exception = self.last_exception
+                    self.frame.caught.append(
+                        (self.last_exception[1], self.last_traceback)
+                    )
                     exctype, value, tb = self.last_exception
                     self.push(tb, value, exctype)
                 else:
@@ -779,6 +797,7 @@ class PyVM(object):
             if why == "exception" and block.type in ["setup-except", "finally"]:
                 self.push_block("except-handler")
                 self.top_block().exception = self.last_exception
+                self.top_block().traceback = self.last_traceback
                 exc_type, exc_value, exc_traceback = self.last_exception
                 # FIXME: start here - is this right for 2.7?
                 self.push(exc_traceback, exc_value, exc_type)
@@ -899,6 +918,7 @@ class PyVM(object):
 
             elif why == "reraise":
                 why = "exception"
+                self.restore_traceback()
                 if self.version >= (3, 11):
                     self.exception_handling_311()
 
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 785447e..5e7b935 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -298,6 +298,7 @@ class PyVMTraced(PyVM):
 
             elif why == "reraise":
                 why = "exception"
+                self.restore_traceback()
                 if self.version >= (3, 11):
                     self.exception_handling_311()
 
-- 
2.43.0


From e8cb629ac07deb1298a39ae8e03c0199abe3f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 047/101] fix: a bytecode file without code ended in an
 AttributeError

---
 xpython/execfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index ca004e4..9c68d00 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -10,7 +10,7 @@ import tokenize
 import warnings
 from typing import Optional
 
-from xdis import load_module
+from xdis import iscode, load_module
 from xdis.version_info import IS_PYPY, PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, PythonImplementation, version_tuple_to_str
 
 from xpython.stdlib.builtins import make_compatible_builtins
@@ -259,6 +259,8 @@ def run_python_file(
                         "We only support byte code for %s: %r is %s bytecode"
                         % (mess, filename, version_tuple_to_str(python_version))
                     )
+                if not iscode(code):
+                    raise WrongBytecodeError(f"No code in bytecode file: {filename!r}")
                 if not closure_names_agree(code):
                     # Some releases of xdis read co_cellvars where co_freevars is
                     # stored, and the other way around.
-- 
2.43.0


From 75fed0994f85a4c9551ff0e4dec208c14a984eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 048/101] fix: PyVMTraced could not be made

---
 xpython/vmtrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 5e7b935..93acb3b 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -8,6 +8,7 @@ from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
+from xdis.version_info import PythonImplementation
 
 from xpython.pyobj import Frame, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
@@ -85,7 +86,7 @@ class PyVMTraced(PyVM):
     ) -> None:
         super().__init__(
             python_version,
-            is_pypy,
+            PythonImplementation.PyPy if is_pypy else PythonImplementation.CPython,
             vmtest_testing,
             format_instruction_func=format_instruction_func,
         )
-- 
2.43.0


From 0e327f38544f757118cf1ead88dac092b9fbfde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 049/101] fix: the start of a generator was traced as a
 resumption

---
 xpython/vm.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 3ea43d8..cb71ec7 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -448,13 +448,8 @@ class PyVM(object):
         log.debug("resume_frame: %r", frame)
 
         # Make sure we advance to the next instruction after where we left off.
-        if frame.f_lasti == -1:
-            # We are just starting out. Set offset to the first
-            # instruction, and signal that we should not increment
-            # this before fetching next instruction.
-            frame.fallthrough = False
-            frame.f_lasti = 0
-        else:
+        # (When we are just starting out, eval_frame() sees to that.)
+        if frame.f_lasti != -1:
             frame.fallthrough = True
 
         try:
-- 
2.43.0


From 3d55fc4a57d94edd4b5a79d8d445f99c671469e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 050/101] fix: a frame left by an exception was traced as
 returning, or not at all

---
 xpython/vmtrace.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 93acb3b..27f495f 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -317,12 +317,8 @@ class PyVMTraced(PyVM):
         # Extra tracing code...
         callback = frame.f_trace or self.callback
         if why == "exception":
-            if (
-                callback
-                and frame
-                and (not frame or frame.event_flags & PyVMEVENT_EXCEPTION)
-            ):
-                frame.f_trace(
+            if callback and frame.event_flags & PyVMEVENT_EXCEPTION:
+                callback(
                     "exception",
                     offset,
                     bytecode_name,
@@ -332,17 +328,6 @@ class PyVMTraced(PyVM):
                     self.last_exception,
                     self,
                 )
-            elif callback and (not frame or frame.event_flags & PyVMEVENT_RETURN):
-                callback(
-                    "return",
-                    offset,
-                    bytecode_name,
-                    byte_code,
-                    line_number,
-                    int_arg,
-                    self.return_value,
-                    self,
-                )
             pass
         # End extra tracing code
 
-- 
2.43.0


From f1146c0161304fa0221d0c0a6e27d34bebc21a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 051/101] fix: "return" from the callback left the frame on the
 stack

---
 xpython/vmtrace.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 27f495f..42564d5 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -207,20 +207,24 @@ class PyVMTraced(PyVM):
                 pass
             # byte_code == opcode["YIELD_VALUE"]?
 
+        bytecode_name = line_number = int_arg = why = None
         # FIXME: DRY with BRKPT op code
-        if result:
+        if isinstance(result, str):
             if result == "finish":
                 frame.f_trace = None
                 frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
             elif result == "return":
-                return self.return_value
+                # Immediate return with value
+                why = result
+                if frame.generator:
+                    frame.generator.finished = True
 
         self.frame.linestarts = dict(
             self.opc.findlinestarts(frame.f_code, dup_lines=True)
         )
 
         offset = 0
-        while True:
+        while not why:
             (
                 bytecode_name,
                 byte_code,
@@ -277,6 +281,8 @@ class PyVMTraced(PyVM):
                 elif result == "return":
                     # Immediate return with value
                     why = result
+                    if frame.generator:
+                        frame.generator.finished = True
                     break
                 elif result == "finish":
                     # Continue execution without tracing
-- 
2.43.0


From b150d85bfc24314274ca9b0e4c27162557c0059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 052/101] fix: a line that starts with EXTENDED_ARG was not
 traced as a line

---
 xpython/vm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index cb71ec7..2593506 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -531,6 +531,7 @@ class PyVM(object):
         # the argument exists.
         arguments = []
         int_arg = None
+        line_number = None
 
         while True:
             if f.fallthrough:
@@ -540,9 +541,9 @@ class PyVM(object):
                 # Jump instructions must set this False.
                 f.fallthrough = True
             offset = f.f_lasti
-            line_number = self.frame.linestarts.get(offset, None)
-            if line_number is not None:
-                f.f_lineno = line_number
+            if offset in self.frame.linestarts:
+                # A line can start with an EXTENDED_ARG.
+                line_number = f.f_lineno = self.frame.linestarts[offset]
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
-- 
2.43.0


From 09153785e17e6e52c253967f40cad0fb4191cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 053/101] fix: a breakpoint was set in every frame of the code,
 and stayed after its removal

---
 xpython/vmtrace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 42564d5..26db694 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,6 +3,7 @@ This can be used in a debugger or profiler.
 """
 
 import logging
+from copy import copy
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
@@ -111,7 +112,10 @@ class PyVMTraced(PyVM):
         # Convert code to something we can change, then
         # Convert its bytecode bytes to a list, update the list and replace this back in
         # the code.
-        code = codeType2Portable(frame.f_code, self.version)
+        if offset in frame.brkpt:
+            return
+        # Other frames run the same code: this one needs its own.
+        code = copy(codeType2Portable(frame.f_code, self.version))
         frame.brkpt[offset] = code.co_code[offset]
         bytecode = list(code.co_code)
         bytecode[offset] = BREAKPOINT_OP
@@ -128,7 +132,7 @@ class PyVMTraced(PyVM):
         # the code.
         code = frame.f_code
         bytecode = list(code.co_code)
-        bytecode[offset] = frame.brkpt[offset]
+        bytecode[offset] = frame.brkpt.pop(offset)
         code.co_code = bytes(bytecode)
 
     # FIXME: put callback in f_trace, and update it accordingly
-- 
2.43.0


From 91ce4243f428bdcdcdcf32d8d13056f3c86e7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 054/101] fix: breakpoints on instructions with an operand went
 astray

---
 xpython/byteop/byteop24.py |  6 ++++--
 xpython/pyobj.py           |  1 +
 xpython/vm.py              |  6 +++++-
 xpython/vmtrace.py         | 11 ++++++++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 5b31f0b..940c200 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -191,10 +191,12 @@ class ByteOp24(ByteOpBase):
                     frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
                 elif result == "return":
                     # Immediate return with value
-                    return self.return_value
+                    if frame.generator:
+                        frame.generator.finished = True
+                    return result
                 elif result == "skip":
                     # Don't run instruction
-                    return result
+                    return None
 
         if log.isEnabledFor(logging.INFO):
             vm.log(byte_name, int_arg, arguments, opoffset, line_number)
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 6b397a2..9ebc404 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -435,6 +435,7 @@ class Frame(object):
         # smasshed by overwriting it with the pseudo opcode BRKPT.
         # After a breakpoint is serviced, this opcode needs to be run.
         self.brkpt = {}
+        self.extended_arg = 0
 
         if f_back and f_back.f_globals is f_globals:
             # If we share the globals, we share the builtins.
diff --git a/xpython/vm.py b/xpython/vm.py
index 2593506..cc41409 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -522,7 +522,8 @@ class PyVM(object):
         f = self.frame
         f_code = f.f_code
         co_code = f_code.co_code
-        extended_arg = 0
+        # EXTENDED_ARGs before a breakpoint are for the instruction it stands for.
+        extended_arg = f.extended_arg if replay else 0
 
         # Note: There is never more than one argument.
         # The list size is used to indicate whether an argument
@@ -546,6 +547,7 @@ class PyVM(object):
                 line_number = f.f_lineno = self.frame.linestarts[offset]
             if not replay:
                 byte_code = byteint(co_code[offset])
+            replay = False
             bytecode_name = self.opc.opname[byte_code]
 
             arg_offset = offset + 1
@@ -634,6 +636,8 @@ class PyVM(object):
                     arguments = [arg]
             break
 
+        f.extended_arg = extended_arg
+
         return bytecode_name, byte_code, int_arg, arguments, offset, line_number
 
     def log(self, bytecode_name, int_arg, arguments, offset, line_number):
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 26db694..6de7709 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -135,6 +135,11 @@ class PyVMTraced(PyVM):
         bytecode[offset] = frame.brkpt.pop(offset)
         code.co_code = bytes(bytecode)
 
+    def opcode_at(self, frame: Frame) -> int:
+        """The opcode at the current instruction of `frame`, disregarding breakpoints."""
+        offset = frame.f_lasti
+        return frame.brkpt.get(offset, byteint(frame.f_code.co_code[offset]))
+
     # FIXME: put callback in f_trace, and update it accordingly
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
@@ -195,7 +200,7 @@ class PyVMTraced(PyVM):
                 pass
             # End extra tracing code #
         else:
-            byte_code = byteint(frame.f_code.co_code[frame.f_lasti])
+            byte_code = self.opcode_at(frame)
             self.push_frame(frame)
             if frame.f_trace and frame.event_flags & PyVMEVENT_YIELD:
                 result = frame.f_trace(
@@ -296,6 +301,10 @@ class PyVMTraced(PyVM):
             # are doing it.
             why = self.dispatch(bytecode_name, int_arg, arguments, offset, line_number)
 
+            if byte_code == BREAKPOINT_OP:
+                # The next instruction comes after the one that was really run.
+                byte_code = self.opcode_at(frame)
+
             if why == "exception":
                 # Deal with exceptions encountered while executing the op.
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
-- 
2.43.0


From 3ebd78bb1a71dd7e9ad7f7575c5ce559aebf78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 055/101] fix: a with statement took __enter__ and __exit__
 from the instance, several times

---
 xpython/byteop/byteop27.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index ff66ac4..7f870e9 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -21,6 +21,21 @@ def fmt_map_add(vm, arg, repr_fn=repr):
     )
 
 
+def special_method(obj, name):
+    """The method `name` of the type of `obj`. Like CPython, this looks
+    neither at the attributes of `obj` itself nor asks its __getattribute__().
+    """
+    cls = type(obj)
+    for base in type.__getattribute__(cls, "__mro__"):
+        namespace = type.__getattribute__(base, "__dict__")
+        if name in namespace:
+            method = namespace[name]
+            if hasattr(type(method), "__get__"):
+                method = method.__get__(obj, cls)
+            return method
+    raise AttributeError(name)
+
+
 class ByteOp27(ByteOp26):
     # Gone since 2.6.
     # These are hidden here, rather than deleted from the classes that define
@@ -123,23 +138,23 @@ class ByteOp27(ByteOp26):
         # Make sure __enter__ and __exit__ functions in context_manager are
         # converted to our Function type, so we can interpret them.
         # Note though that built-in functions can't be traced.
+        exit_method = special_method(context_manager, "__exit__")
         if self.version[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__exit__
+            exit_method
         ):
             try:
                 exit_method = self.convert_method_native_func(
-                    self.vm.frame, context_manager.__exit__
+                    self.vm.frame, exit_method
                 )
             except Exception:
-                exit_method = context_manager.__exit__
-        else:
-            exit_method = context_manager.__exit__
+                pass
         self.vm.push(exit_method)
+        enter_method = special_method(context_manager, "__enter__")
         if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__enter__
+            enter_method
         ):
-            self.convert_method_native_func(self.vm.frame, context_manager.__enter__)
-        finally_block = context_manager.__enter__()
+            self.convert_method_native_func(self.vm.frame, enter_method)
+        finally_block = enter_method()
         if self.version_info[:2] < (3, 0):
             self.vm.push_block("with", delta)
         else:
-- 
2.43.0


From f92be3d57020862fdd9311e55c8f81ad42f8e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 056/101] fix: calling an instance asked its __getattribute__
 for __class__

---
 xpython/byteop/byteop.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index db4c5e3..a2b0ee8 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -147,7 +147,9 @@ class ByteOpBase(object):
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
-        if isinstance(func, Method):
+        # isinstance() may ask func for its __class__.
+        func_type = type(func)
+        if func_type is Method:
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
@@ -165,9 +167,10 @@ class ByteOpBase(object):
                     )
                 )
             func = func.im_func
+            func_type = type(func)
 
         # FIXME: put this in a separate routine.
-        if inspect.isbuiltin(func):
+        if issubclass(func_type, types.BuiltinFunctionType):
             log.debug(f"handling built-in function {func.__name__}")
             if func == globals:
                 # Use the frame's globals(), not the interpreter's
@@ -314,7 +317,7 @@ class ByteOpBase(object):
                 make_implicit_methods(namespace)
 
         if (
-            inspect.isfunction(func)
+            issubclass(func_type, types.FunctionType)
             and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
         ):
             # Try to convert to an interpreter function, so we can interpret it.
@@ -322,11 +325,11 @@ class ByteOpBase(object):
                 func = self.vm.fn2native[func]
 
         if (
-            inspect.isfunction(func)
+            type(func) is types.FunctionType
             and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
         ):
             log.debug(f"calling native function {func.__name__}")
-        elif inspect.isclass(func):
+        elif issubclass(func_type, type):
             if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
-- 
2.43.0


From e5b8015faf32192afe9135557ac69fb0add5700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 057/101] fix: an except clause took what is no exception class
 without complaint

---
 xpython/byteop/byteop24.py | 27 ++++++++++++++++++++++++---
 xpython/byteop/byteop39.py |  3 +--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 940c200..988aed9 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -541,10 +541,28 @@ class ByteOp24(ByteOpBase):
         lambda x, y: x not in y,
         lambda x, y: x is y,
         lambda x, y: x is not y,
-        lambda x, y: issubclass(x, BaseException)
-        and issubclass(x, y),  # exception-match
+        None,  # exception-match; see exception_match()
     ]
 
+    def exception_match(self, exc, kind) -> bool:
+        """Whether the exception class `exc` is dealt with by "except kind"."""
+        kinds = kind if isinstance(kind, tuple) else (kind,)
+        if self.vm.version >= (3, 0):
+            for item in kinds:
+                if not (isinstance(item, type) and issubclass(item, BaseException)):
+                    raise TypeError(
+                        "catching classes that do not inherit from BaseException"
+                        " is not allowed"
+                    )
+            return issubclass(exc, kinds)
+        for item in kinds:
+            if isinstance(item, tuple):
+                if self.exception_match(exc, item):
+                    return True
+            elif isinstance(item, type) and issubclass(exc, item):
+                return True
+        return False
+
     def COMPARE_OP(self, opname: int):
         """Performs a Boolean operation. The operation name can be
         found in cmp_op[opname].
@@ -552,7 +570,10 @@ class ByteOp24(ByteOpBase):
         Changed in 3.12
         """
         x, y = self.vm.popn(2)
-        self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
+        if opname == 10:
+            self.vm.push(self.exception_match(x, y))
+        else:
+            self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
 
     # Imports
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 081e267..3471d91 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -90,8 +90,7 @@ class ByteOp39(ByteOp38):
         the stack.
         """
         TOS1, TOS = self.vm.popn(2)
-        # FIXME: not sure what operation should be used to test not "matches".
-        if not issubclass(TOS1, TOS):
+        if not self.exception_match(TOS1, TOS):
             self.vm.jump(target)
         return
 
-- 
2.43.0


From 7705c3f18112409a31f0511e34cae40004fffee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 058/101] fix: a starred display iterated within a generator of
 its own

---
 xpython/byteop/byteop35.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 2e3e3c5..566e900 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -34,7 +34,13 @@ class ByteOp35(ByteOp34):
 
     def build_container_flat(self, count, container_fn):
         elts = self.vm.popn(count)
-        self.vm.push(container_fn(e for elt in elts for e in elt))
+        if container_fn is set:
+            self.vm.push(set().union(*elts))
+            return
+        result = []
+        for elt in elts:
+            result.extend(elt)
+        self.vm.push(result if container_fn is list else container_fn(result))
 
     def update_dict(self, destination: dict, mapping) -> None:
         """Adds the items of ``**mapping`` in a dictionary display."""
-- 
2.43.0


From da6d4dff62334a0195488cf6dbb83f5a250ca361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 059/101] fix: locals() was the variables themselves; vars()
 and dir() were the interpreter's

---
 xpython/byteop/byteop.py |  6 +++++-
 xpython/pyobj.py         | 26 ++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index a2b0ee8..295e1a2 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -178,7 +178,11 @@ class ByteOpBase(object):
                 return
             elif func == locals:
                 # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
+                self.vm.push(frame.locals())
+                return
+            elif func in (vars, dir) and not pos_args and not named_args:
+                namespace = frame.locals()
+                self.vm.push(namespace if func is vars else sorted(namespace))
                 return
 
             if func == compile:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9ebc404..7d98099 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -7,7 +7,7 @@ import sys
 import types
 from copy import copy
 
-from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
+from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, CO_OPTIMIZED, iscode
 from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
@@ -408,6 +408,10 @@ class Block(object):
             )
 
 
+# Stands for the value of a variable that has none.
+UNBOUND = object()
+
+
 class Frame(object):
     def __init__(
         self,
@@ -423,7 +427,8 @@ class Frame(object):
         self.f_code = f_code
         self.f_globals = f_globals
         self.f_locals = f_locals
-        self.f_locals = f_locals
+        # What locals() gives in a function; see locals().
+        self.locals_dict = {}
         self.f_trace = None
         self.localsplusnames = localsplusnames
         self.stack = []
@@ -496,6 +501,23 @@ class Frame(object):
             self.f_lasti,
         )
 
+    def locals(self) -> dict:
+        """The value of locals(): in a function that is a dictionary of its own,
+        which is brought up to date with each call.
+        """
+        if not self.f_code.co_flags & CO_OPTIMIZED:
+            return self.f_locals
+
+        variables = {name: self.f_locals.get(name, UNBOUND) for name in self.f_code.co_varnames}
+        for name, cell in self.cells.items():
+            variables[name] = UNBOUND if cell.is_empty else cell.get()
+        for name, value in variables.items():
+            if value is not UNBOUND:
+                self.locals_dict[name] = value
+            elif name in self.locals_dict:
+                del self.locals_dict[name]
+        return self.locals_dict
+
     def line_number(self) -> int:
         """Get the current line number the frame is executing."""
         # We don't keep f_lineno up to date, so calculate it based on the
-- 
2.43.0


From ba30958bf0b382c2fc3a1fb45ec28782171e78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 060/101] fix: exec() and eval() took the wrong namespaces

---
 xpython/byteop/byteop.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 295e1a2..c7966d3 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -145,6 +145,20 @@ class ByteOpBase(object):
         elts = self.vm.popn(count)
         self.vm.push(container_fn(elts))
 
+    def with_namespaces(self, args: list) -> list:
+        """The arguments of exec() or eval(), with the namespaces filled in which
+        the caller left out: those of its frame or, if it gave the globals, these
+        for the locals as well.
+        """
+        source, f_globals, f_locals = (list(args) + [None, None])[:3]
+        if f_globals is None:
+            f_globals = self.vm.frame.f_globals
+            if f_locals is None:
+                f_locals = self.vm.frame.locals()
+        elif f_locals is None:
+            f_locals = f_globals
+        return [source, f_globals, f_locals]
+
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
         # isinstance() may ask func for its __class__.
@@ -204,20 +218,11 @@ class ByteOpBase(object):
             #   func == exec
             elif func.__name__ == "exec":
                 if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
+                    raise TypeError(
                         "exec() builtin should have 1..3 positional arguments; got %d"
                         % (len(pos_args))
                     )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
+                pos_args = self.with_namespaces(pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
@@ -247,19 +252,12 @@ class ByteOpBase(object):
 
             elif func == eval:
                 if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
+                    raise TypeError(
                         "eval() builtin should have 1..3 positional arguments; got %d"
                         % (len(pos_args))
                     )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
+                # Use the frame's globals() and locals(), not the interpreter's
+                pos_args = self.with_namespaces(pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
-- 
2.43.0


From d0dc8e5114f7789fa2d1cab08fc88f300f4c1777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 061/101] fix: exec with its namespaces in a tuple (2.x)

---
 xpython/byteop/byteop24.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 988aed9..0ab42de 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -359,13 +359,16 @@ class ByteOp24(ByteOpBase):
         optional parameters with None.
         """
         stmt, globs, locs = self.vm.popn(3)
-
-        # if `locals` or `globals` is None, use the frame equivalent.
-        if globs is None:
-            globs = self.vm.frame.f_globals
-        if locs is None:
-            locs = self.vm.frame.f_locals
-        exec(stmt, globs, locs)
+        if (
+            isinstance(stmt, tuple)
+            and len(stmt) in (2, 3)
+            and globs is None
+            and locs is None
+        ):
+            # exec(stmt, globals) and exec(stmt, globals, locals)
+            stmt, globs, locs = (stmt + (None,))[:3]
+
+        exec(*self.with_namespaces([stmt, globs, locs]))
 
     def POP_BLOCK(self):
         """
-- 
2.43.0


From 761a963af25d74a9c58903a86f69346f7199b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 062/101] fix: / of 2.x divided integers exactly, floats with
 rounding in place, and ignored __div__

BINARY_DIVIDE gave 3.5 for 7 / 2 and failed with objects that have __div__
or __rdiv__; INPLACE_DIVIDE gave 3.0 for 7.5 / 2.
---
 xpython/byteop/byteop.py   | 67 +++++++++++++++++++++++++++++++++-----
 xpython/byteop/byteop27.py | 16 +--------
 2 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index c7966d3..5a07f9a 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -20,6 +20,63 @@ from xpython.vm import PyVM
 
 log = logging.getLogger(__name__)
 
+
+def class_attribute(cls, name: str):
+    """What `name` is in `cls` or its bases."""
+    for base in type.__getattribute__(cls, "__mro__"):
+        namespace = type.__getattribute__(base, "__dict__")
+        if name in namespace:
+            return namespace[name]
+    raise AttributeError(name)
+
+
+def special_method(obj, name: str):
+    """The method `name` of the type of `obj`. Like CPython, this looks
+    neither at the attributes of `obj` itself nor asks its __getattribute__().
+    """
+    cls = type(obj)
+    method = class_attribute(cls, name)
+    if hasattr(type(method), "__get__"):
+        method = method.__get__(obj, cls)
+    return method
+
+
+def is_overridden(base, cls, name: str) -> bool:
+    """Does `cls` have a `name` of its own, other than the one of `base`?"""
+    try:
+        return class_attribute(cls, name) is not class_attribute(base, name)
+    except AttributeError:
+        return True
+
+
+def classic_divide(x, y, methods=("__div__",), otherwise=operator.truediv):
+    """x / y in Python 2.x: it uses __div__() and __rdiv__(), and rounds down when
+    it divides integers.
+    """
+    calls = [(x, name, y) for name in methods]
+    if type(x) is not type(y):
+        reflected = (y, "__rdiv__", x)
+        if issubclass(type(y), type(x)) and is_overridden(type(x), type(y), "__rdiv__"):
+            calls.insert(len(calls) - 1, reflected)
+        else:
+            calls.append(reflected)
+
+    missing = 0
+    for obj, name, operand in calls:
+        try:
+            method = special_method(obj, name)
+        except AttributeError:
+            missing += 1
+            continue
+        result = method(operand)
+        if result is not NotImplemented:
+            return result
+
+    if missing == len(calls) and isinstance(x, int) and isinstance(y, int):
+        return x // y
+    return otherwise(x, y)
+
+
 UNARY_OPERATORS = {
     "POSITIVE": operator.pos,
     "NEGATIVE": operator.neg,
@@ -31,7 +88,7 @@ UNARY_OPERATORS = {
 BINARY_OPERATORS = {
     "POWER": pow,
     "MULTIPLY": operator.mul,
-    "DIVIDE": getattr(operator, "div", lambda x, y: x / y),
+    "DIVIDE": classic_divide,
     "FLOOR_DIVIDE": operator.floordiv,
     "TRUE_DIVIDE": operator.truediv,
     "MODULO": operator.mod,
@@ -474,13 +531,7 @@ class ByteOpBase(object):
         elif op == "MULTIPLY":
             x *= y
         elif op == "DIVIDE":
-            # Overwritten __div__ is not picked up by x //= y
-            # which seems to puck up FLOOR_DIVIDE
-            # See Python 2.7 test_augassign.py
-            if hasattr(x, "__idiv__"):
-                x = x.__idiv__(y)
-            else:
-                x //= y
+            x = classic_divide(x, y, ("__idiv__", "__div__"), operator.itruediv)
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index 7f870e9..84dfe33 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -5,6 +5,7 @@ import types
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
+from xpython.byteop.byteop import special_method
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop26 import ByteOp26
 
@@ -21,21 +22,6 @@ def fmt_map_add(vm, arg, repr_fn=repr):
     )
 
 
-def special_method(obj, name):
-    """The method `name` of the type of `obj`. Like CPython, this looks
-    neither at the attributes of `obj` itself nor asks its __getattribute__().
-    """
-    cls = type(obj)
-    for base in type.__getattribute__(cls, "__mro__"):
-        namespace = type.__getattribute__(base, "__dict__")
-        if name in namespace:
-            method = namespace[name]
-            if hasattr(type(method), "__get__"):
-                method = method.__get__(obj, cls)
-            return method
-    raise AttributeError(name)
-
-
 class ByteOp27(ByteOp26):
     # Gone since 2.6.
     # These are hidden here, rather than deleted from the classes that define
-- 
2.43.0


From 7f6697239ee218deb2878924568ea861a359f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 063/101] fix: print of 2.x lost the spaces between items and
 wrote empty strings

A file that has no attribute softspace yet gets one, as in 2.x.
---
 xpython/byteop/byteop.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 5a07f9a..ca92444 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -591,24 +591,33 @@ class ByteOpBase(object):
         # Note This attribute is not used to control the print
         # statement, but to allow the implementation of print to keep
         # track of its internal state.
-        if hasattr(to, "softspace") and to.softspace:
-            print(" ", end="", file=to)
-            to.softspace = 0
-        print(item, end="", file=to)
-
-        if hasattr(to, "softspace"):
-            if isinstance(item, str):
-                if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
-                    to.softspace = 1
-            else:
-                to.softspace = 1
+        if self.set_softspace(to, 0):
+            to.write(" ")
+        to.write(str(item))
+
+        if isinstance(item, str):
+            if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
+                self.set_softspace(to, 1)
+        else:
+            self.set_softspace(to, 1)
+
+    def set_softspace(self, to, value: int) -> int:
+        """Sets `to.softspace` and returns what it was. Not every file has it."""
+        try:
+            old_value = to.softspace
+        except Exception:
+            old_value = 0
+        try:
+            to.softspace = value
+        except Exception:
+            pass
+        return old_value
 
     def print_newline(self, to=None):
         if to is None:
             to = sys.stdout
-        print("", file=to)
-        if hasattr(to, "softspace"):
-            to.softspace = 0
+        to.write("\n")
+        self.set_softspace(to, 0)
 
     def setup_sys_module(self) -> types.ModuleType:
         """If this has not previously been done, make a *copy* of the
-- 
2.43.0


From a6334e04e558b5c53dfef463138671446c9c62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 064/101] fix: classes of 2.x programs had no truth and no
 iteration

Their methods __nonzero__ and next are called __bool__ and __next__ since 3.0.
---
 xpython/byteop/byteop24.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 0ab42de..8ed8c63 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -429,6 +429,10 @@ class ByteOp24(ByteOpBase):
         else:
             metaclass = self.vm.frame.f_globals.get("__metaclass__", type)
         make_implicit_methods(methods)
+        # What some methods are called since 3.0.
+        for old_name, new_name in (("__nonzero__", "__bool__"), ("next", "__next__")):
+            if old_name in methods:
+                methods.setdefault(new_name, methods[old_name])
         self.vm.push(metaclass(name, bases, methods))
 
     def STORE_NAME(self, name):
-- 
2.43.0


From 267991bf1afa905eaebf81eb4ecdb488cd10aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 065/101] fix: raise took any object for a traceback, and no
 tuple of exceptions (2.x)

---
 xpython/byteop/byteop24.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 8ed8c63..8887cf3 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -7,6 +7,7 @@ Note: this is subclassed. Later versions use operations from here.
 import logging
 import operator
 import sys
+import types
 from collections import namedtuple
 from copy import copy
 from typing import Any, Optional
@@ -908,6 +909,12 @@ class ByteOp24(ByteOpBase):
             exctype, val = self.vm.popn(2)
         elif argc == 3:
             exctype, val, tb = self.vm.popn(3)
+            if not (tb is None or isinstance(tb, (Traceback, types.TracebackType))):
+                raise TypeError("raise: arg 3 must be a traceback or None")
+
+        # The first of a tuple counts.
+        while isinstance(exctype, tuple) and exctype:
+            exctype = exctype[0]
 
         # There are a number of forms of "raise", normalize them somewhat.
         if isinstance(exctype, BaseException):
-- 
2.43.0


From 3b8f30462129edf3011dc13baa43622be880474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 066/101] fix: sys.exc_info() gave the last exception even when
 none was being handled

---
 xpython/byteop/byteop24.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 8887cf3..af575ea 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -143,7 +143,7 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
-        return self.vm.last_exception
+        return self.vm.handled_exception()
 
     def fmt_unary_op(vm: PyVM, _=None):
         """
-- 
2.43.0


From 9f36a3b018a58e9c55488c396f2ad1539db08b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 067/101] fix: import sys bound a global, and gave any global
 called sys

---
 xpython/byteop/byteop.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index ca92444..f7e83bf 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -183,6 +183,9 @@ class ByteOpBase(object):
         # Set this lazily in "convert_method_native_func
         self.method_func_access = None
         self.cross_bytecode_eval_warning_shown = False
+
+        # The copy of sys that the program sees; made in setup_sys_module()
+        self.sys_module = None
         self.cross_bytecode_exec_warning_shown = False
 
     def exc_info(self) -> tuple:
@@ -621,20 +624,16 @@ class ByteOpBase(object):
 
     def setup_sys_module(self) -> types.ModuleType:
         """If this has not previously been done, make a *copy* of the
-        running sys module, add it in the frame, and adapt it for the
+        running sys module, and adapt it for the
         interpreter we are simulating.
         """
 
-        if "sys" not in self.vm.frame.f_globals:
-            sys_module = copy_module(sys)
-            self.vm.frame.f_globals["sys"] = sys_module
-
-            sys_module.hexversion = self.hexversion
-            sys_module.version_info = self.version_info
-            sys_module.exc_info = self.exc_info
-        else:
-            sys_module = self.vm.frame.f_globals["sys"]
-        return sys_module
+        if self.sys_module is None:
+            self.sys_module = copy_module(sys)
+            self.sys_module.hexversion = self.hexversion
+            self.sys_module.version_info = self.version_info
+            self.sys_module.exc_info = self.exc_info
+        return self.sys_module
 
     def unpack_iterable(self, seq, before, after=None) -> list:
         """Return the items of `seq` as unpacking assigns them. There have to be
-- 
2.43.0


From 3c8a2d93d70fd551aa0793b6aaad8243895951ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 068/101] fix: import * ignored __all__

---
 xpython/byteop/byteop24.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index af575ea..801e762 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -344,15 +344,31 @@ class ByteOp24(ByteOpBase):
         return "yield"
 
     def IMPORT_STAR(self):
-        """Loads all symbols not starting with '_' directly from the module
-        TOS to the local namespace. The module is popped after loading all
+        """Loads all symbols of __all__ or, without that, those not starting with
+        '_' directly from the module TOS to the local namespace. The module is popped after loading all
         names. This opcode implements from module import *.
         """
-        # TODO: this doesn't use __all__ properly.
         mod = self.vm.pop()
-        for attr in dir(mod):
-            if attr[0] != "_":
-                self.vm.frame.f_locals[attr] = getattr(mod, attr)
+        try:
+            names = mod.__all__
+            public = True
+        except AttributeError:
+            try:
+                names = list(mod.__dict__)
+            except AttributeError:
+                raise ImportError("from-import-* object has no __dict__ and no __all__")
+            public = False
+
+        # __all__ is a sequence, which is read up to an IndexError.
+        pos = 0
+        while True:
+            try:
+                name = names[pos]
+            except IndexError:
+                break
+            pos += 1
+            if public or not name.startswith("_"):
+                self.vm.frame.f_locals[name] = getattr(mod, name)
 
     def EXEC_STMT(self):
         """
-- 
2.43.0


From d7ff81f3f34b0b62385a64ed9beaedc03e72d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 069/101] fix: from ... import left nothing to take names from
 (2.4, 2.5)

---
 xpython/byteop/byteop24.py | 46 +++++++++++++++++++---------
 xpython/byteop/byteop25.py | 14 +++++++++
 xpython/byteop/byteop26.py | 62 --------------------------------------
 3 files changed, 45 insertions(+), 77 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 801e762..67c65a6 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -12,6 +12,7 @@ from collections import namedtuple
 from copy import copy
 from typing import Any, Optional
 
+import xpython.stdlib
 from xpython.builtins import make_implicit_methods
 from xpython.byteop.byteop import (
     ByteOpBase,
@@ -23,9 +24,6 @@ from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
-import importlib
-import_fn = importlib.__import__
-
 Version_info = namedtuple("version_info", "major minor micro releaselevel serial")
 
 log = logging.getLogger(__name__)
@@ -602,26 +600,44 @@ class ByteOp24(ByteOpBase):
     # Imports
 
     # Note: this changes in Python 2.6
+    def import_module(self, name: str, fromlist, level: int):
+        """The module that __import__() gives for `name`."""
+        frame = self.vm.frame
+
+        # Should we replace import "name" with a compatibility version?
+        if name in xpython.stdlib.__all__:
+            name = f"xpython.stdlib.{name}"
+
+        assert level >= -1, f"Invalid Level number {level} on IMPORT_NAME"
+        if level == -1:
+            # Python 2.5 added the level parameter, and it was -1 by
+            # default until but not including 3.0.  -1 means try
+            # relative imports before absolute imports.
+
+            # FIXME: give warning that we can't handle absolute
+            # import. Or fix up code to handle possible absolute
+            # import.
+            level = 0
+
+        module = __import__(name, frame.f_globals, frame.f_locals, fromlist, level)
+
+        if module is sys:
+            module = self.setup_sys_module()
+        return module
+
     def IMPORT_NAME(self, name):
-        """Imports the module co_names[namei]. The module object is pushed
+        """Imports the module co_names[namei]. TOS is popped and provides the
+        fromlist argument of __import__(). The module object is pushed
         onto the stack.  The current namespace is not affected: for a
         proper import statement, a subsequent STORE_FAST instruction
         modifies the namespace.
 
         Note: name = co_names[namei] set in parse_byte_and_args()
 
-        Changed in 2.6
+        Changed in 2.5
         """
-        frame = self.vm.frame
-
-        module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=None, level=0
-        )
-
-        if module is sys:
-            module = self.setup_sys_module()
-
-        self.vm.push(module)
+        fromlist = self.vm.pop()
+        self.vm.push(self.import_module(name, fromlist, -1))
 
     def IMPORT_FROM(self, name):
         """
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 2317f02..6232aa3 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -20,6 +20,20 @@ class ByteOp25(ByteOp24):
         """
         return self.vm.pop()
 
+    # Changed in 2.5
+    def IMPORT_NAME(self, name):
+        """
+        Imports the module co_names[namei]. TOS and TOS1 are popped and
+        provide the fromlist and level arguments of __import__().  The
+        module object is pushed onto the stack.  The current namespace
+        is not affected: for a proper import statement, a subsequent
+        STORE_FAST instruction modifies the namespace.
+
+        Note: name = co_names[namei] set in parse_byte_and_args()
+        """
+        level, fromlist = self.vm.popn(2)
+        self.vm.push(self.import_module(name, fromlist, level))
+
     # Changed in 2.6
     def pop_exit_function(self):
         """Removes the context manager's __exit__() from the stack for
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index 08e47e5..a909f1b 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -4,15 +4,6 @@
 Note: this is subclassed so later versions may use operations from here.
 """
 
-import sys
-
-import xpython.stdlib
-
-try:
-    import importlib
-except ImportError:
-    importlib = None
-
 from xpython.byteop.byteop import fmt_binary_op
 from xpython.byteop.byteop24 import Version_info, fmt_make_function
 from xpython.byteop.byteop25 import ByteOp25
@@ -32,59 +23,6 @@ class ByteOp26(ByteOp25):
 
     # Right now 2.6 is largely the same as 2.5 here. How nice!
 
-    def IMPORT_NAME(self, name):
-        """
-        Imports the module co_names[namei]. TOS and TOS1 are popped and
-        provide the fromlist and level arguments of __import__().  The
-        module object is pushed onto the stack.  The current namespace
-        is not affected: for a proper import statement, a subsequent
-        STORE_FAST instruction modifies the namespace.
-
-        Note: name = co_names[namei] set in parse_byte_and_args()
-        """
-        level, fromlist = self.vm.popn(2)
-        frame = self.vm.frame
-
-        # Should we replace import "name" with a compatibility version?
-        if name in xpython.stdlib.__all__:
-            name = f"xpython.stdlib.{name}"
-
-        # if importlib is not None:
-        #     module_spec = importlib.util.find_spec(name)
-        #     module = importlib.util.module_from_spec(module_spec)
-
-        #     load_module = (
-        #         module_spec.loader.exec_module
-        #         if hasattr(module_spec.loader, "exec_module")
-        #         else module_spec.loader.load_module
-        #     )
-        #     load_module(module)
-
-
-        # INVESTIGATE: the above doesn't work for things like "import os.path as osp"
-        # The module it finds ins os.posixpath which doesn't have a "path" attribute
-        # while the below finds "os" which does have a "path" attribute.
-        #
-        assert level >= -1, f"Invalid Level number {level} on IMPORT_NAME"
-        module = None
-        if level == -1:
-            # In Python 2.6 added the level parameter, and it was -1 by
-            # default until but not including 3.0.  -1 means try
-            # relative imports before absolute imports.
-
-            # FIXME: give warning that we can't handle absolute
-            # import. Or fix up code to handle possible absolute
-            # import.
-            level = 0
-
-        if module is None:
-            module = __import__(name, frame.f_globals, frame.f_locals, fromlist, level)
-
-        if module is sys:
-            module = self.setup_sys_module()
-
-        self.vm.push(module)
-
     # Changed in 2.6
     def pop_exit_function(self):
         """Removes the context manager's __exit__() from the stack for
-- 
2.43.0


From 0b94f83a947b81a52af802e4fa27c1b173d1e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 070/101] fix: from ... import asked for each name twice and
 did not find a module being imported

---
 xpython/byteop/byteop24.py | 20 ++++++++------------
 xpython/byteop/byteop35.py | 13 +++++++++++++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 67c65a6..f359c6a 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -648,19 +648,15 @@ class ByteOp24(ByteOpBase):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         mod = self.vm.top
-        if not hasattr(mod, name):
-            if not hasattr(mod, "__file__"):
-                # Builtins don't have a __file__ attribute
-                value = ImportError(f"cannot import name '{name}' from '{mod.__name__}")
-            else:
-                value = ImportError(
-                    f"cannot import name '{name}' from '{mod.__name__} ({mod.__file__}"
-                )
-
-            self.vm.last_exception = (ImportError, value, None)
-            return "exception"
+        try:
+            value = getattr(mod, name)
+        except AttributeError:
+            value = self.missing_import(mod, name)
+        self.vm.push(value)
 
-        self.vm.push(getattr(mod, name))
+    def missing_import(self, mod, name: str):
+        """`name`, when it is not an attribute of the module `mod`."""
+        raise ImportError(f"cannot import name '{name}'")
 
     # Jumps
 
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 566e900..ba774f9 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -1,5 +1,7 @@
 """Bytecode Interpreter operations for Python 3.5
 """
+import sys
+
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop34 import ByteOp34
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
@@ -32,6 +34,17 @@ class ByteOp35(ByteOp34):
         # FIXME: should be a class
         self.version_info = Version_info(3, 5, 10, "final", 0)
 
+    # Changed in 3.5
+    def missing_import(self, mod, name: str):
+        """`name`, when it is not an attribute of the module `mod`. It may be a
+        module in that package which is being imported and therefore
+        is not an attribute yet.
+        """
+        try:
+            return sys.modules[f"{mod.__name__}.{name}"]
+        except (AttributeError, KeyError):
+            raise ImportError(f"cannot import name '{name}'")
+
     def build_container_flat(self, count, container_fn):
         elts = self.vm.popn(count)
         if container_fn is set:
-- 
2.43.0


From b7bfe0d244100cdb710cdfc14b1e249da8b28836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 071/101] fix: what a program set on a function had no effect,
 or only under one of its names

---
 xpython/pyobj.py | 107 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 86 insertions(+), 21 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 7d98099..8c6bdc6 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -77,19 +77,14 @@ class Function:
     """
 
     __slots__ = [
-        "func_code",  # Python 2.x
-        "func_name",
-        "func_defaults",
-        "func_closure",
-        "__code__",  # Python 3.x
-        "__name__",
-        "__defaults__",
-        "__kwdefaults__",
+        "_code",
+        "_name",
+        "_defaults",
+        "_kwdefaults",
         "__closure__",
         # rest
         "func_globals",
         "func_locals",
-        "func_dict",
         "__dict__",
         # "__doc__" is filled in by the doc comment above.
         "_vm",
@@ -137,14 +132,14 @@ class Function:
         if not vm:
             raise TypeError("Function() argument 6 (vm) must be passed")
 
-        # Function field names below change between Python 2.7 and 3.x.
-        # We create attributes for both names. Other code in this file assumes
-        # 2.7ish names, while bytecode for 3.x will use 3.x names.
+        # Function field names change between Python 2.7 and 3.x.
+        # The properties below are attributes for both names. Other code in this
+        # file assumes 2.7ish names, while bytecode for 3.x will use 3.x names.
         # TODO: be more stringent based on vm version.
-        self.func_code = self.__code__ = code
-        self.func_name = self.__name__ = name or code.co_name
-        self.func_defaults = self.__defaults__ = tuple(argdefs) if argdefs else tuple()
-        self.func_closure = self.__closure__ = closure
+        self._code = code
+        self._name = name or code.co_name
+        self._defaults = tuple(argdefs) if argdefs else None
+        self.__closure__ = closure if closure else None
 
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
@@ -156,7 +151,7 @@ class Function:
 
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
-            self.__kwdefaults__ = kwdefaults
+            self._kwdefaults = kwdefaults if kwdefaults else None
             if vm.version >= (3, 4):
                 self.__qualname__ = qualname if qualname else self.__name__
             else:
@@ -164,6 +159,7 @@ class Function:
         else:
             assert annotations == {}
             assert kwdefaults == {}
+            self._kwdefaults = None
 
         # In Python 3.x is various generators and list comprehensions have a .0 arg
         # but inspect doesn't show that. In the various MAKE_FUNCTION routines,
@@ -195,10 +191,7 @@ class Function:
         # The intent in providing native functions is for use in type
         # testing, mostly. The functions should not be run, since that defeats our
         # ability to trace functions.
-        if hasattr(self, "func_defaults"):
-            kw = {"argdefs": self.func_defaults}
-        else:
-            kw = {}
+        kw = {"argdefs": self._defaults}
 
         if closure:
             kw["closure"] = tuple(make_cell(0) for _ in closure)
@@ -225,6 +218,78 @@ class Function:
             # cross version interpreting... FIXME: fix this up
             self._func = None
 
+    # What a program may set. The names of 2.x and 3.x mean the same.
+    @property
+    def __code__(self):
+        return self._code
+
+    @__code__.setter
+    def __code__(self, code):
+        if not iscode(code):
+            raise TypeError("__code__ must be set to a code object")
+        free, closed = len(code.co_freevars), len(self.__closure__ or ())
+        if free != closed:
+            raise ValueError(
+                f"{self._name}() requires a code object with {closed} free vars, not {free}"
+            )
+        self._code = code
+
+    @property
+    def __name__(self):
+        return self._name
+
+    @__name__.setter
+    def __name__(self, name):
+        if not isinstance(name, str):
+            raise TypeError("__name__ must be set to a string object")
+        self._name = name
+
+    @property
+    def __defaults__(self):
+        return self._defaults
+
+    @__defaults__.setter
+    def __defaults__(self, defaults):
+        if defaults is not None and not isinstance(defaults, tuple):
+            raise TypeError("__defaults__ must be set to a tuple object")
+        self._defaults = defaults
+
+    @__defaults__.deleter
+    def __defaults__(self):
+        self._defaults = None
+
+    @property
+    def __kwdefaults__(self):
+        if self.version < (3, 0):
+            raise AttributeError("__kwdefaults__")
+        return self._kwdefaults
+
+    @__kwdefaults__.setter
+    def __kwdefaults__(self, kwdefaults):
+        if kwdefaults is not None and not isinstance(kwdefaults, dict):
+            raise TypeError("__kwdefaults__ must be set to a dict object")
+        self._kwdefaults = kwdefaults
+
+    @__kwdefaults__.deleter
+    def __kwdefaults__(self):
+        self._kwdefaults = None
+
+    @property
+    def __globals__(self):
+        return self.func_globals
+
+    func_code = __code__
+    func_name = __name__
+    func_defaults = __defaults__
+
+    @property
+    def func_closure(self):
+        return self.__closure__
+
+    @property
+    def func_dict(self):
+        return self.__dict__
+
     def __repr__(self) -> str:  # pragma: no cover
         if hasattr(self, "func_name"):
             return f"<Function {self.func_name} at 0x{id(self):08x}>"
-- 
2.43.0


From 86e6f93e3d14f63de48f4eb0199c9ad3f469927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 072/101] fix: functions had x-python's own attributes in their
 __dict__, no module and any constant for a docstring

---
 xpython/pyobj.py | 54 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 8c6bdc6..281d673 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -57,24 +57,25 @@ COMPREHENSION_FN_NAMES = frozenset(
 
 
 class Function:
-    """Function(name, code, globals, argdefs, closure, vm,  kwdefaults={},
-                annotations={}, doc=None, qualname=None)
-
-    Create a function object in vm from a code object and a dictionary.
-    The name string overrides the name from the code object.
-    The optional argdefs tuple specifies the default argument values.
-    The optional closure tuple supplies the bindings for free variables.
-
-    In contrast to `types.Function`, parameters appear in the order
-    the CPython generates them; also there is an additional parameter
-    `vm` which appears last.
-
-    As a convenience, in contrast to types.FunctionType we allow
-    setting `kwdefaults` and `annotations`.
-
-    Parameter vm should always be set. The caller should also set __qualname__
-    as appropriate.
-    """
+    # Function(name, code, globals, argdefs, closure, vm,  kwdefaults={},
+    #             annotations={}, doc=None, qualname=None)
+    #
+    # Create a function object in vm from a code object and a dictionary.
+    # The name string overrides the name from the code object.
+    # The optional argdefs tuple specifies the default argument values.
+    # The optional closure tuple supplies the bindings for free variables.
+    #
+    # In contrast to `types.Function`, parameters appear in the order
+    # the CPython generates them; also there is an additional parameter
+    # `vm` which appears last.
+    #
+    # As a convenience, in contrast to types.FunctionType we allow
+    # setting `kwdefaults` and `annotations`.
+    #
+    # Parameter vm should always be set. The caller should also set __qualname__
+    # as appropriate.
+    #
+    # (This is no docstring, because __doc__ is that of the interpreted function.)
 
     __slots__ = [
         "_code",
@@ -82,11 +83,16 @@ class Function:
         "_defaults",
         "_kwdefaults",
         "__closure__",
+        "__annotations__",
+        "__qualname__",
         # rest
         "func_globals",
         "func_locals",
         "__dict__",
-        # "__doc__" is filled in by the doc comment above.
+        "__doc__",
+        "__weakref__",
+        "has_dot_zero",
+        "version",
         "_vm",
         "_func",
     ]
@@ -106,7 +112,6 @@ class Function:
     ) -> None:
         self._vm = vm
         self.version = vm.version
-        self.__doc__ = doc
 
         if name is not None and not isinstance(name, str):
             raise TypeError(
@@ -143,11 +148,12 @@ class Function:
 
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
-        self.__dict__ = {"version": vm.version, "_vm": vm}
+        # As seen by the program
+        self.__dict__ = {"__module__": globs.get("__name__")}
 
-        self.__doc__ = (
-            code.co_consts[0] if hasattr(code, "co_consts") and code.co_consts else None
-        )
+        if doc is None and getattr(code, "co_consts", None):
+            doc = code.co_consts[0]
+        self.__doc__ = doc if isinstance(doc, str) else None
 
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
-- 
2.43.0


From a76805aecb79e0c4a987aaaaad8464e8f2a3cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 073/101] fix: methods were never equal and did not have the
 attributes of their functions

---
 xpython/pyobj.py | 49 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 281d673..9ca5601 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -303,7 +303,7 @@ class Function:
             return str(self._func)
         return f"<Function at 0x{id(self):08x}>"
 
-    def __get__(self, instance, owner):
+    def __get__(self, instance, owner=None):
         if instance is not None:
             return Method(instance, owner, self)
         version = self.version if hasattr(self, "version") else PYTHON_VERSION_TRIPLE
@@ -364,23 +364,46 @@ class Function:
 # FIXME: go over. Not sure how close This is supposed to be
 # like type.MethodType
 class Method(object):
-    """Create a bound instance method object."""
+    # A bound instance method object, or an unbound one of 2.x. Attributes that it
+    # does not have are those of the function.
+
+    __slots__ = ["im_self", "im_class", "im_func", "__weakref__"]
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = getattr(func, "__doc__", None)
-        self.im_self = self.__self__ = obj
+        self.im_self = obj
         self.im_class = _class
-        self.im_func = self.__func__ = func
+        self.im_func = func
 
-        if hasattr(func, "func_code"):
-            self.func_code = func.func_code
-        if hasattr(func, "__name__"):
-            self.__name__ = func.__name__
-        if hasattr(func, "__code__"):
-            self.__code__ = func.__code__
+    @property
+    def __self__(self):
+        return self.im_self
 
-        # This causes failure
-        # self.__name__ = obj.__name__
+    @property
+    def __func__(self):
+        return self.im_func
+
+    @property
+    def __doc__(self):
+        return self.im_func.__doc__
+
+    def __getattr__(self, name):
+        if name == "im_func":
+            raise AttributeError(name)
+        return getattr(self.im_func, name)
+
+    def __eq__(self, other):
+        if type(other) is not Method:
+            return NotImplemented
+        if self.im_func != other.im_func:
+            return False
+        if self.im_self is None or other.im_self is None or self.version >= (3, 8):
+            return self.im_self is other.im_self
+        return self.im_self == other.im_self
+
+    def __hash__(self):
+        if self.im_self is None or self.version >= (3, 8):
+            return hash((id(self.im_self), self.im_func))
+        return hash((self.im_self, self.im_func))
 
     def __repr__(self) -> str:  # pragma: no cover
         name = f"{self.im_class.__name__}.{self.im_func.func_name}"
-- 
2.43.0


From 01fb99d40657d10a3a22de08b178a27d34dbde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 074/101] fix: cells had no cell_contents

---
 xpython/pyobj.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9ca5601..ab139ff 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -454,6 +454,11 @@ class Cell:
             return True
         return False
 
+    @property
+    def cell_contents(self):
+        # As seen by the program
+        return self.native.cell_contents
+
     def get(self):
         return self.native.cell_contents
 
-- 
2.43.0


From 718c15559b2d77d67d1534d21c1fb0c56785a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 075/101] fix: functions of 3.3 had no __qualname__

---
 xpython/byteop/byteop33.py | 7 +++----
 xpython/pyobj.py           | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 2f813a1..3fe119a 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -38,7 +38,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
-            qualname=qualname if self.vm.version >= (3, 4) else None,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
@@ -59,9 +59,7 @@ class ByteOp33(ByteOp32):
           3.0..3.2)
         * the qualified name of the function (at TOS if 3.3+)
         """
-        # The string function name does not seem to be used.
-        # In the 3.4, it is dropped.
-        self.vm.pop()
+        qualname = self.vm.pop()
         code = self.vm.pop()
         name = code.co_name
         defaults, kwdefaults, annotations = self.pop_function_parts(argc)
@@ -79,6 +77,7 @@ class ByteOp33(ByteOp32):
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index ab139ff..414ff76 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -158,7 +158,7 @@ class Function:
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
             self._kwdefaults = kwdefaults if kwdefaults else None
-            if vm.version >= (3, 4):
+            if vm.version >= (3, 3):
                 self.__qualname__ = qualname if qualname else self.__name__
             else:
                 assert qualname is None
-- 
2.43.0


From 471b96daf13683b7e2b4754b4520fc03456732ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 076/101] fix: functions could not be copied, and their
 __closure__ be replaced

---
 xpython/pyobj.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 414ff76..a8ff10f 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -82,7 +82,7 @@ class Function:
         "_name",
         "_defaults",
         "_kwdefaults",
-        "__closure__",
+        "_closure",
         "__annotations__",
         "__qualname__",
         # rest
@@ -144,7 +144,7 @@ class Function:
         self._code = code
         self._name = name or code.co_name
         self._defaults = tuple(argdefs) if argdefs else None
-        self.__closure__ = closure if closure else None
+        self._closure = closure if closure else None
 
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
@@ -284,18 +284,26 @@ class Function:
     def __globals__(self):
         return self.func_globals
 
+    @property
+    def __closure__(self):
+        return self._closure
+
     func_code = __code__
     func_name = __name__
     func_defaults = __defaults__
-
-    @property
-    def func_closure(self):
-        return self.__closure__
+    func_closure = __closure__
 
     @property
     def func_dict(self):
         return self.__dict__
 
+    # Like those of CPython, functions are not copied.
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
     def __repr__(self) -> str:  # pragma: no cover
         if hasattr(self, "func_name"):
             return f"<Function {self.func_name} at 0x{id(self):08x}>"
-- 
2.43.0


From 4794fdd46ae41978e8f2ee81b55280d1a003f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 077/101] fix: __signature__ of a function and an excess of
 defaults changed how calls were bound

---
 xpython/stdlib/inspect2.py |  4 +++-
 xpython/stdlib/inspect3.py | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 093ca53..42fe552 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -162,7 +162,9 @@ def getcallargs(func, /, *positional, **named):
     num_pos = len(positional)
     num_total = num_pos + len(named)
     num_args = len(args)
-    num_defaults = len(defaults) if defaults else 0
+    # Of more defaults than parameters, the last ones count.
+    defaults = (defaults or ())[-num_args:] if num_args else ()
+    num_defaults = len(defaults)
     for arg, value in zip(args, positional):
         assign(arg, value)
     if varargs:
diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index bfe8c38..483aac0 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -234,8 +234,22 @@ def getcallargs(*func_and_positional, **named):
     values from 'positional' and 'named'."""
     func = func_and_positional[0]
     positional = func_and_positional[1:]
-    spec = getfullargspec(func)
-    args, varargs, varkw, defaults, kwonlyargs, kwonlydefaults, ann = spec
+    # These are read here and not with getfullargspec(): a __signature__ that the
+    # program sets on the function has no bearing on how it is called.
+    code = func.__code__
+    num_args = code.co_argcount
+    num_named = num_args + (getattr(code, "co_kwonlyargcount", 0) or 0)
+    args = list(code.co_varnames[:num_args])
+    kwonlyargs = list(code.co_varnames[num_args:num_named])
+    varargs = varkw = None
+    if code.co_flags & COMPILER_FLAG_BIT["VARARGS"]:
+        varargs = code.co_varnames[num_named]
+        num_named += 1
+    if code.co_flags & COMPILER_FLAG_BIT["VARKEYWORDS"]:
+        varkw = code.co_varnames[num_named]
+    # Of more defaults than parameters, the last ones count.
+    defaults = (func.__defaults__ or ())[-num_args:] if num_args else ()
+    kwonlydefaults = func.__kwdefaults__
     f_name = func.__name__
     arg2value = {}
 
@@ -243,8 +257,7 @@ def getcallargs(*func_and_positional, **named):
         # implicit 'self' (or 'cls' for classmethods) argument
         positional = (func.__self__,) + positional
     num_pos = len(positional)
-    num_args = len(args)
-    num_defaults = len(defaults) if defaults else 0
+    num_defaults = len(defaults)
 
     n = min(num_pos, num_args)
     for i in range(n):
-- 
2.43.0


From cdfd1670ab1fa1fef2f86ca8e5d1071c25582bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 078/101] fix: functions with tuple parameters could not be
 called (2.x)

---
 xpython/stdlib/inspect2.py | 103 +++++--------------------------------
 1 file changed, 13 insertions(+), 90 deletions(-)

diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 42fe552..07475f9 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -7,9 +7,6 @@ import sys
 from collections import namedtuple
 from inspect import ismethod
 
-# For the kinds of specific opcode use we need,
-# all 2.x opcodes are compatible with what is in 2.7
-import xdis.opcodes.opcode_2x.opcode_27 as opc
 from xdis import COMPILER_FLAG_BIT, iscode
 
 ArgSpec = namedtuple("ArgSpec", "args varargs keywords defaults")
@@ -27,17 +24,13 @@ def isFunction(obj) -> bool:
 # ------------------------------------------------ argument list extraction
 Arguments = namedtuple("Arguments", "args varargs keywords")
 
-# It turns in spite of all of the other Python opcode changes,
-# out the magic number 90 has always been the number for which
-# opcodes with arguments start.
-
-
 def getargs(co, version) -> Arguments:
     """Get information about the arguments accepted by a code object.
 
     Three things are returned: (args, varargs, varkw), where 'args' is
-    a list of argument names (possibly containing nested lists), and
-    'varargs' and 'varkw' are the names of the * and ** arguments or None."""
+    a list of argument names, and 'varargs' and 'varkw' are the names of the
+    * and ** arguments or None. A tuple parameter has a name like ".0" (and
+    is unpacked by the bytecode of the function)."""
 
     if not iscode(co):
         raise TypeError(f"{co!r} is not a code object")
@@ -45,46 +38,6 @@ def getargs(co, version) -> Arguments:
     nargs = co.co_argcount
     names = co.co_varnames
     args = list(names[:nargs])
-    step = 0
-
-    # The following acrobatics are for anonymous (tuple) arguments.
-    for i in range(nargs):
-        if args[i][:1] in ("", "."):
-            stack, remain, count = [], [], []
-            while step < len(co.co_code):
-                op = ord(co.co_code[step])
-                step = step + 1
-                if op >= opc.HAVE_ARGUMENT:
-                    opname = opc.opname[op]
-                    value = ord(co.co_code[step]) + ord(co.co_code[step + 1]) * 256
-                    step = step + 2
-                    if opname in ("UNPACK_TUPLE", "UNPACK_SEQUENCE"):
-                        remain.append(value)
-                        count.append(value)
-                    elif opname in ("STORE_FAST", "STORE_DEREF"):
-                        if opname == "STORE_FAST":
-                            stack.append(names[value])
-                        else:
-                            stack.append(co.co_cellvars[value])
-
-                        # Special case for sublists of length 1: def foo((bar))
-                        # doesn't generate the UNPACK_TUPLE bytecode, so if
-                        # `remain` is empty here, we have such a sublist.
-                        if not remain:
-                            stack[0] = [stack[0]]
-                            break
-                        else:
-                            remain[-1] = remain[-1] - 1
-                            while remain[-1] == 0:
-                                remain.pop()
-                                size = count.pop()
-                                stack[-size:] = [stack[-size:]]
-                                if not remain:
-                                    break
-                                remain[-1] = remain[-1] - 1
-                            if not remain:
-                                break
-            args[i] = stack[0]
 
     varargs = None
     if co.co_flags & COMPILER_FLAG_BIT["VARARGS"]:
@@ -126,36 +79,6 @@ def getcallargs(func, /, *positional, **named):
     f_name = func.__name__
     arg2value = {}
 
-    # The following closures are basically because of tuple parameter unpacking.
-    assigned_tuple_params = []
-
-    def assign(arg: str, value: tuple[()]) -> None:
-        if isinstance(arg, str):
-            arg2value[arg] = value
-        else:
-            assigned_tuple_params.append(arg)
-            value = iter(value)
-            for i, subarg in enumerate(arg):
-                try:
-                    subvalue = next(value)
-                except StopIteration:
-                    raise ValueError(
-                        "need more than %d %s to unpack"
-                        % (i, "values" if i > 1 else "value")
-                    )
-                assign(subarg, subvalue)
-            try:
-                next(value)
-            except StopIteration:
-                pass
-            else:
-                raise ValueError("too many values to unpack")
-
-    def is_assigned(arg: str) -> bool:
-        if isinstance(arg, str):
-            return arg in arg2value
-        return arg in assigned_tuple_params
-
     if ismethod(func) and func.im_self is not None:
         # implicit 'self' (or 'cls' for classmethods) argument
         positional = (func.im_self,) + positional
@@ -166,12 +89,12 @@ def getcallargs(func, /, *positional, **named):
     defaults = (defaults or ())[-num_args:] if num_args else ()
     num_defaults = len(defaults)
     for arg, value in zip(args, positional):
-        assign(arg, value)
+        arg2value[arg] = value
     if varargs:
         if num_pos > num_args:
-            assign(varargs, positional[-(num_pos - num_args) :])
+            arg2value[varargs] = positional[-(num_pos - num_args) :]
         else:
-            assign(varargs, ())
+            arg2value[varargs] = ()
     elif 0 < num_args < num_pos:
         raise TypeError(
             "%s() takes %s %d %s (%d given)"
@@ -193,19 +116,19 @@ def getcallargs(func, /, *positional, **named):
         else:
             raise TypeError("%s() takes no arguments (%d given)" % (f_name, num_total))
     for arg in args:
-        if isinstance(arg, str) and arg in named:
-            if is_assigned(arg):
+        if arg in named:
+            if arg in arg2value:
                 raise TypeError(
                     f"{f_name}() got multiple values for keyword argument '{arg}'"
                 )
             else:
-                assign(arg, named.pop(arg))
+                arg2value[arg] = named.pop(arg)
     if defaults:  # fill in any missing values with the defaults
         for arg, value in zip(args[-num_defaults:], defaults):
-            if not is_assigned(arg):
-                assign(arg, value)
+            if arg not in arg2value:
+                arg2value[arg] = value
     if varkw:
-        assign(varkw, named)
+        arg2value[varkw] = named
     elif named:
         unexpected = next(iter(named))
         try:
@@ -218,7 +141,7 @@ def getcallargs(func, /, *positional, **named):
         raise TypeError(
             f"{f_name}() got an unexpected keyword argument '{unexpected}'"
         )
-    unassigned = num_args - len([arg for arg in args if is_assigned(arg)])
+    unassigned = num_args - len([arg for arg in args if arg in arg2value])
     if unassigned:
         num_required = num_args - num_defaults
         raise TypeError(
-- 
2.43.0


From fb94abf72c18e258a6dbdf726a33411111088e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 079/101] fix: cell_contents could not be set or deleted (3.7)

---
 xpython/pyobj.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index a8ff10f..92f995a 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -467,6 +467,14 @@ class Cell:
         # As seen by the program
         return self.native.cell_contents
 
+    @cell_contents.setter
+    def cell_contents(self, value):
+        self.native.cell_contents = value
+
+    @cell_contents.deleter
+    def cell_contents(self):
+        self.clear()
+
     def get(self):
         return self.native.cell_contents
 
-- 
2.43.0


From 242dca813997c3885e3beffbca94157349bbabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 080/101] fix: a program's own attributes named version,
 func_locals or func_globals broke its functions

---
 xpython/pyobj.py           | 26 +++++++++++---------------
 xpython/stdlib/inspect2.py |  2 +-
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 92f995a..3bed6e7 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -86,13 +86,11 @@ class Function:
         "__annotations__",
         "__qualname__",
         # rest
-        "func_globals",
-        "func_locals",
+        "_globals",
         "__dict__",
         "__doc__",
         "__weakref__",
         "has_dot_zero",
-        "version",
         "_vm",
         "_func",
     ]
@@ -111,7 +109,6 @@ class Function:
         qualname=None,
     ) -> None:
         self._vm = vm
-        self.version = vm.version
 
         if name is not None and not isinstance(name, str):
             raise TypeError(
@@ -146,8 +143,7 @@ class Function:
         self._defaults = tuple(argdefs) if argdefs else None
         self._closure = closure if closure else None
 
-        self.func_globals = globs
-        self.func_locals = vm.frame.f_locals
+        self._globals = globs
         # As seen by the program
         self.__dict__ = {"__module__": globs.get("__name__")}
 
@@ -266,7 +262,7 @@ class Function:
 
     @property
     def __kwdefaults__(self):
-        if self.version < (3, 0):
+        if self._vm.version < (3, 0):
             raise AttributeError("__kwdefaults__")
         return self._kwdefaults
 
@@ -282,7 +278,7 @@ class Function:
 
     @property
     def __globals__(self):
-        return self.func_globals
+        return self._globals
 
     @property
     def __closure__(self):
@@ -290,6 +286,7 @@ class Function:
 
     func_code = __code__
     func_name = __name__
+    func_globals = __globals__
     func_defaults = __defaults__
     func_closure = __closure__
 
@@ -314,8 +311,7 @@ class Function:
     def __get__(self, instance, owner=None):
         if instance is not None:
             return Method(instance, owner, self)
-        version = self.version if hasattr(self, "version") else PYTHON_VERSION_TRIPLE
-        if version < (3, 0):
+        if self._vm.version < (3, 0):
             return Method(None, owner, self)
         else:
             return self
@@ -328,7 +324,7 @@ class Function:
             # so just do the right thing.
             assert len(args) == 1 and not kwargs, "Surprising comprehension!"
             callargs = {".0": args[0]}
-        elif self._func and self.version[:2] == PYTHON_VERSION_TRIPLE[:2]:
+        elif self._func and self._vm.version[:2] == PYTHON_VERSION_TRIPLE[:2]:
             # Perhaps this branch can go and we just use the others.
             # It will require a *lot* more code from inspect.py to be added:
             # classes Signature, Parameter, etc.
@@ -339,12 +335,12 @@ class Function:
             # See 3.7.7. test_keywordonlyarg.py
 
             # To catch dynamic changes, we'll run a second check
-            if self.version >= (3, 0):
+            if self._vm.version >= (3, 0):
                 inspect3.getcallargs(self, *args, **kwargs)
             else:
                 inspect2.getcallargs(self, *args, **kwargs)
         else:
-            if self.version >= (3, 0):
+            if self._vm.version >= (3, 0):
                 callargs = inspect3.getcallargs(self, *args, **kwargs)
             else:
                 callargs = inspect2.getcallargs(self, *args, **kwargs)
@@ -404,12 +400,12 @@ class Method(object):
             return NotImplemented
         if self.im_func != other.im_func:
             return False
-        if self.im_self is None or other.im_self is None or self.version >= (3, 8):
+        if self.im_self is None or other.im_self is None or self.im_func._vm.version >= (3, 8):
             return self.im_self is other.im_self
         return self.im_self == other.im_self
 
     def __hash__(self):
-        if self.im_self is None or self.version >= (3, 8):
+        if self.im_self is None or self.im_func._vm.version >= (3, 8):
             return hash((id(self.im_self), self.im_func))
         return hash((self.im_self, self.im_func))
 
diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 07475f9..908e690 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -62,7 +62,7 @@ def getargspec(func) -> ArgSpec:
         func = func.im_func
     if not isFunction(func):
         raise TypeError(f"{func!r} is not a Python function")
-    args, varargs, varkw = getargs(func.func_code, func.version)
+    args, varargs, varkw = getargs(func.func_code, func._vm.version)
     return ArgSpec(args, varargs, varkw, func.func_defaults)
 
 
-- 
2.43.0


From e1b79fdd5ef29bc6042c3137bf4159ee33982970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 081/101] fix: any object could become the __annotations__ of a
 function, and they could not be deleted

---
 xpython/pyobj.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 3bed6e7..170b4d5 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -83,7 +83,7 @@ class Function:
         "_defaults",
         "_kwdefaults",
         "_closure",
-        "__annotations__",
+        "_annotations",
         "__qualname__",
         # rest
         "_globals",
@@ -152,7 +152,7 @@ class Function:
         self.__doc__ = doc if isinstance(doc, str) else None
 
         if vm.version >= (3, 0):
-            self.__annotations__ = annotations
+            self._annotations = annotations
             self._kwdefaults = kwdefaults if kwdefaults else None
             if vm.version >= (3, 3):
                 self.__qualname__ = qualname if qualname else self.__name__
@@ -276,6 +276,22 @@ class Function:
     def __kwdefaults__(self):
         self._kwdefaults = None
 
+    @property
+    def __annotations__(self):
+        if self._vm.version < (3, 0):
+            raise AttributeError("__annotations__")
+        return self._annotations
+
+    @__annotations__.setter
+    def __annotations__(self, annotations):
+        if annotations is not None and not isinstance(annotations, dict):
+            raise TypeError("__annotations__ must be set to a dict object")
+        self._annotations = {} if annotations is None else annotations
+
+    @__annotations__.deleter
+    def __annotations__(self):
+        self._annotations = {}
+
     @property
     def __globals__(self):
         return self._globals
-- 
2.43.0


From 52fb2ab8d72b943924c4c792db89862ad22d61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 082/101] fix: functions of 2.x had no func_doc, and func_dict
 could not be set

---
 xpython/pyobj.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 170b4d5..e525acd 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -310,6 +310,18 @@ class Function:
     def func_dict(self):
         return self.__dict__
 
+    @func_dict.setter
+    def func_dict(self, value):
+        self.__dict__ = value
+
+    @property
+    def func_doc(self):
+        return self.__doc__
+
+    @func_doc.setter
+    def func_doc(self, doc):
+        self.__doc__ = doc
+
     # Like those of CPython, functions are not copied.
     def __copy__(self):
         return self
-- 
2.43.0


From 62785544a4247aa1abeeb2403769cf75f12bf169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 083/101] fix: the module and the docstring of a function were
 lost with its __dict__ or when deleted

---
 xpython/pyobj.py           | 46 ++++++++++++++++++++++++++++----------
 xpython/stdlib/inspect2.py |  3 +--
 xpython/stdlib/inspect3.py |  3 +--
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index e525acd..deaa318 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -87,8 +87,9 @@ class Function:
         "__qualname__",
         # rest
         "_globals",
+        "_doc",
+        "_module",
         "__dict__",
-        "__doc__",
         "__weakref__",
         "has_dot_zero",
         "_vm",
@@ -144,12 +145,11 @@ class Function:
         self._closure = closure if closure else None
 
         self._globals = globs
-        # As seen by the program
-        self.__dict__ = {"__module__": globs.get("__name__")}
+        self._module = globs.get("__name__")
 
         if doc is None and getattr(code, "co_consts", None):
             doc = code.co_consts[0]
-        self.__doc__ = doc if isinstance(doc, str) else None
+        self._doc = doc if isinstance(doc, str) else None
 
         if vm.version >= (3, 0):
             self._annotations = annotations
@@ -306,6 +306,32 @@ class Function:
     func_defaults = __defaults__
     func_closure = __closure__
 
+    @property
+    def __doc__(self):
+        return self._doc
+
+    @__doc__.setter
+    def __doc__(self, doc):
+        self._doc = doc
+
+    @__doc__.deleter
+    def __doc__(self):
+        self._doc = None
+
+    func_doc = __doc__
+
+    @property
+    def __module__(self):
+        return self._module
+
+    @__module__.setter
+    def __module__(self, module):
+        self._module = module
+
+    @__module__.deleter
+    def __module__(self):
+        self._module = None
+
     @property
     def func_dict(self):
         return self.__dict__
@@ -314,14 +340,6 @@ class Function:
     def func_dict(self, value):
         self.__dict__ = value
 
-    @property
-    def func_doc(self):
-        return self.__doc__
-
-    @func_doc.setter
-    def func_doc(self, doc):
-        self.__doc__ = doc
-
     # Like those of CPython, functions are not copied.
     def __copy__(self):
         return self
@@ -418,6 +436,10 @@ class Method(object):
     def __doc__(self):
         return self.im_func.__doc__
 
+    @property
+    def __module__(self):
+        return self.im_func.__module__
+
     def __getattr__(self, name):
         if name == "im_func":
             raise AttributeError(name)
diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 908e690..b06cd3e 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -16,8 +16,7 @@ def isFunction(obj) -> bool:
     return (
         hasattr(obj, "__name__")
         and type(obj).__name__ == "Function"
-        and hasattr(obj, "__module__")
-        and type(obj).__module__ == "xpython.pyobj"
+        and hasattr(type(obj), "func_code")
     )
 
 
diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index 483aac0..d476e22 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -192,8 +192,7 @@ def isFunction(obj):
     return (
         hasattr(obj, "__name__")
         and type(obj).__name__ == "Function"
-        and hasattr(obj, "__module__")
-        and type(obj).__module__ == "xpython.pyobj"
+        and hasattr(type(obj), "func_code")
     )
 
 
-- 
2.43.0


From 95c2d04ff96f92e47c90c3c57111ca9e0e4dd760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 084/101] fix: deleting the name or code of a function was an
 AttributeError

---
 xpython/pyobj.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index deaa318..59acb8a 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -236,6 +236,10 @@ class Function:
             )
         self._code = code
 
+    @__code__.deleter
+    def __code__(self):
+        raise TypeError("__code__ must be set to a code object")
+
     @property
     def __name__(self):
         return self._name
@@ -246,6 +250,10 @@ class Function:
             raise TypeError("__name__ must be set to a string object")
         self._name = name
 
+    @__name__.deleter
+    def __name__(self):
+        raise TypeError("__name__ must be set to a string object")
+
     @property
     def __defaults__(self):
         return self._defaults
-- 
2.43.0


From 6b604f754c7a0bf4f2ac1bf507793aaa1bd96c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 085/101] fix: let an exception whose class is false leave its
 frame

---
 xpython/vm.py      | 2 +-
 xpython/vmtrace.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index cc41409..fa8aa87 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -936,7 +936,7 @@ class PyVM(object):
 
         if why == "exception":
             last_exception = self.last_exception
-            if last_exception and last_exception[0]:
+            if last_exception and last_exception[0] is not None:
                 if not self.frame and not (
                     isinstance(last_exception[1], BaseException)
                     and not isinstance(last_exception[1], Exception)
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 6de7709..89e9a53 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -356,7 +356,7 @@ class PyVMTraced(PyVM):
 
         if why == "exception":
             last_exception = self.last_exception
-            if last_exception and last_exception[0]:
+            if last_exception and last_exception[0] is not None:
                 if not self.frame and not (
                     isinstance(last_exception[1], BaseException)
                     and not isinstance(last_exception[1], Exception)
-- 
2.43.0


From acc97524af0d9cc480405a128811eb15594e59b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 086/101] fix: do not skip the assert statements of PyPy

---
 xpython/byteop/byteoppypy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteoppypy.py b/xpython/byteop/byteoppypy.py
index 634d2c4..136c17a 100644
--- a/xpython/byteop/byteoppypy.py
+++ b/xpython/byteop/byteoppypy.py
@@ -15,9 +15,11 @@ class ByteOpPyPy(object):
 
     def JUMP_IF_NOT_DEBUG(self, jump_offset) -> None:
         """
-        For now, same as JUMP_ABSOLUTE.
+        Starts an "assert" statement: jumps over it when assertions are
+        turned off.
         """
-        self.vm.jump(jump_offset)
+        if not __debug__:
+            self.vm.jump(jump_offset)
 
     # For Python 3.7+ this is not correct
     def LOOKUP_METHOD(self, name) -> None:
-- 
2.43.0


From c1dbd30a355ab0564b05283a1e606ff067280ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 087/101] fix: pass the keyword arguments of a PyPy method call
 in the order they have

---
 xpython/byteop/byteop37pypy.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 8dc4ff3..2e769bd 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -67,21 +67,13 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         case is garbage. After that is the method to call.
         """
 
-        # We are going to access parameter off of the stack which is
-        # has the last parameter closest to the top.
-        # Reverse keyword names in the tuple match our access pattern.
         kw_names = self.vm.pop()
         assert isinstance(kw_names, tuple)
-        kw_names = list(reversed(kw_names))
         kwarg_count = len(kw_names)
 
         assert argc >= kwarg_count
         pos_argc = argc - kwarg_count
-        keyword_args = {}
-
-        for i in range(kwarg_count):
-            param_value = self.vm.pop()
-            keyword_args[kw_names[i]] = param_value
+        keyword_args = dict(zip(kw_names, self.vm.popn(kwarg_count)))
 
         pos_args = []
         for i in range(pos_argc):
-- 
2.43.0


From dabc8bc063eaf093cf499ed633d2b7f51ee4e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 088/101] fix: let a program that runs out of stack handle it

A recursion that used up the interpreter's stack often ended in the middle of
our own code: the frame stayed on the VM's stack and the finally clauses of the
program were skipped.  Now the call that would go too deep fails.
---
 xpython/vm.py      | 12 ++++++++++++
 xpython/vmtrace.py | 11 ++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index fa8aa87..f98d440 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -29,6 +29,17 @@ log = logging.getLogger(__name__)
 
 XPYTHON_STACKCHECK = os.environ.get("XPYTHON_STACKCHECK", False)
 
+# The calls our own code nests, at most, to run an instruction of a frame, or
+# to handle its failure.
+STACK_RESERVE = 25
+
+
+def reserve_stack(calls=STACK_RESERVE):
+    """Raise RecursionError here unless that many calls can still be nested."""
+    if calls:
+        reserve_stack(calls - 1)
+
+
 def byteint(b):
     return b
 
@@ -855,6 +866,7 @@ class PyVM(object):
         This code does includes frame tracing (ftrace) support used in debugging. For that,
         see the corresponding code in vmtrace.py
         """
+        reserve_stack()
         self.f_code = frame.f_code
         if frame.f_lasti == -1:
             # We were started new, not yielded back from.
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 89e9a53..5de910c 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -12,7 +12,14 @@ from xdis.opcodes.base import def_op
 from xdis.version_info import PythonImplementation
 
 from xpython.pyobj import Frame, traceback_from_frame
-from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
+from xpython.vm import (
+    PyVM,
+    PyVMError,
+    PyVMUncaughtException,
+    byteint,
+    format_instruction,
+    reserve_stack,
+)
 
 log = logging.getLogger(__name__)
 
@@ -153,6 +160,8 @@ class PyVMTraced(PyVM):
         without tracing see the corresponding code in vm.py.
         """
 
+        reserve_stack()
+
         # Extra tracing code
         if self.frame:
             # Inherit values from self.frame
-- 
2.43.0


From c788fb61eb473f61177c0fe469d10756247e74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 089/101] fix: do not look for the operands of an operation
 that failed

With -v, reporting an operation that failed looked for its operands, which are
no longer on the stack, and could fail itself; that of a comparison could not
be reported without them.
---
 xpython/vm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index f98d440..c49f490 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -127,7 +127,7 @@ def format_instruction(
     elif int_arg is None:
         argrepr = ""
     elif byte_code in opc.COMPARE_OPS:
-        if vm.version >= (3, 12):
+        if opc.version_tuple >= (3, 12):
             int_arg >>= 4
         argrepr = opc.cmp_op[int_arg]
     elif isinstance(arguments, list) and arguments:
@@ -730,8 +730,7 @@ class PyVM(object):
 
             # FIXME: dry code
             if not self.in_exception_processing:
-                # Formatting shows the operands, which runs code of the
-                # interpreted program; so do that only when it is wanted.
+                # Without the operands: they are no longer on the stack.
                 if self.last_exception[0] != SystemExit and log.isEnabledFor(
                     logging.INFO
                 ):
@@ -748,7 +747,6 @@ class PyVM(object):
                                 offset,
                                 line_number,
                                 False,
-                                vm=self,
                             )
                         )
                     )
-- 
2.43.0


From 88df3cf94d65b8cdb987ff15ce82311e6e096513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 090/101] fix: survive operands that cannot be shown

With -v, a program with an object whose __repr__() fails died from being shown.
---
 xpython/vm.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index c49f490..d6351ad 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -118,7 +118,11 @@ def format_instruction(
     byte_code = opc.opmap.get(bytecode_name, 0)
 
     if vm and bytecode_name in vm.byteop.stack_fmt:
-        stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        try:
+            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        except Exception:
+            # Operands can be anything; asking them what they look like can fail.
+            stack_args = " (?)"
     else:
         stack_args = ""
 
@@ -665,11 +669,16 @@ class PyVM(object):
             vm=self,
         )
         indent = "    " * (len(self.frames) - 1)
-        stack_rep = repr(self.frame.stack)
-        block_stack_rep = repr(self.frame.block_stack)
-
-        log.debug(f"  {indent}frame.stack: {stack_rep}")
-        log.debug(f"  {indent}blocks     : {block_stack_rep}")
+        if log.isEnabledFor(logging.DEBUG):
+            try:
+                stack_rep = repr(self.frame.stack)
+                block_stack_rep = repr(self.frame.block_stack)
+            except Exception:
+                # What is on the stack can be anything.
+                stack_rep = block_stack_rep = "?"
+
+            log.debug(f"  {indent}frame.stack: {stack_rep}")
+            log.debug(f"  {indent}blocks     : {block_stack_rep}")
         log.info(f"{indent}{op}")
 
     def dispatch(self, bytecode_name, int_arg, arguments, offset, line_number):
-- 
2.43.0


From c78fee7dddc12d8e36ddb353865676d53876fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 091/101] fix: show the name of what is called without running
 its code

With -v, what was called was asked for attributes, which runs __getattr__() or
__getattribute__() of the program.
---
 xpython/byteop/byteop24.py | 28 ++++++++++++++++++++--------
 xpython/byteop/byteop36.py | 10 ++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index f359c6a..637a9b9 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -20,7 +20,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Function, Traceback
+from xpython.pyobj import Function, Method, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -53,20 +53,32 @@ def fmt_load_deref(vm, int_arg, repr=repr):
     return "" if cell.is_empty else f" ({cell.get()})"
 
 
-def fmt_call_function(vm, argc: int, repr=repr):
+def fmt_callable_name(item) -> str:
     """
-    returns the name of the function from the code object in the stack
+    returns the name of a function or class that is called.
+    This must not run code of the program, so types are looked at.
     """
-    name_default, pos_args = divmod(argc, 256)
-    code = vm.peek(name_default + pos_args + 1)
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(code, attr):
-            return f" ({getattr(code, attr)})"
+    if issubclass(type(item), types.MethodType):
+        item = item.__func__
+    if issubclass(type(item), type):
+        return f" ({type.__dict__['__name__'].__get__(item)})"
+    if issubclass(
+        type(item), (types.BuiltinFunctionType, types.FunctionType, Function, Method)
+    ):
+        return f" ({item.__name__})"
 
     # Nothing found.
     return ""
 
 
+def fmt_call_function(vm, argc: int, repr=repr):
+    """
+    returns the name of the function from the code object in the stack
+    """
+    name_default, pos_args = divmod(argc, 256)
+    return fmt_callable_name(vm.peek(name_default + pos_args + 1))
+
+
 def fmt_make_function(vm, _=None, repr=repr):
     """
     returns the name of the function from the code object in the stack
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 0e41b94..8156eef 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -9,7 +9,7 @@ import inspect
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
-from xpython.byteop.byteop24 import Version_info
+from xpython.byteop.byteop24 import Version_info, fmt_callable_name
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
 
@@ -38,14 +38,8 @@ def fmt_call_function(vm, argc: int, repr_fn=repr) -> str:
     returns the name of the function from the code object in the stack
     """
     name_default, pos_args = divmod(argc, 256)
-    TOS = vm.peek(pos_args + 1)
     # FIXME: give info on pos_args. Right now this is okay only for pos_args == 0
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    return fmt_callable_name(vm.peek(pos_args + 1))
 
 
 def fmt_call_function_kw(vm, argc, repr=repr) -> str:
-- 
2.43.0


From ed74924992efc592c94fcb0396bc243b26c406be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 092/101] fix: show operands by their repr everywhere

With -v, captured variables and functions called with keywords were converted
to str, which runs __str__() or __format__() of the program.
---
 xpython/byteop/byteop24.py     | 4 ++--
 xpython/byteop/byteop36.py     | 2 +-
 xpython/byteop/byteop37pypy.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 637a9b9..3c95198 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -45,12 +45,12 @@ def get_cell_name(vm, i: int):
 
 
 def fmt_store_deref(vm, _, repr=repr):
-    return f" ({vm.top})"
+    return f" ({repr(vm.top)})"
 
 
 def fmt_load_deref(vm, int_arg, repr=repr):
     cell = vm.frame.cells[get_cell_name(vm, int_arg)]
-    return "" if cell.is_empty else f" ({cell.get()})"
+    return "" if cell.is_empty else f" ({repr(cell.get())})"
 
 
 def fmt_callable_name(item) -> str:
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 8156eef..81d3936 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -48,7 +48,7 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
     """
     namedargs_tup = vm.top
     func = vm.peek(argc + 2)
-    return f" (keyword: {namedargs_tup}, function: {func})"
+    return f" (keyword: {namedargs_tup}, function: {repr(func)})"
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 2e769bd..97241df 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -27,7 +27,7 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     kwargs_count = len(kwarg_names)
     kwargs_list = []
     for i in range(kwargs_count):
-        kwargs_list.append(f"{kwarg_names[i]}={vm.peek(i+1)}")
+        kwargs_list.append(f"{kwarg_names[i]}={repr(vm.peek(i+1))}")
 
     pos_args = []
     j = kwargs_count + 2
-- 
2.43.0


From bf9409a59f780ad3ecffbce45223a7161e2505a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 093/101] fix: show the operands of INPLACE_RSHIFT

A missing comma made it POWERRSHIFT.
---
 xpython/byteop/byteop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index f7e83bf..267e32b 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -112,7 +112,7 @@ INPLACE_OPERATORS = frozenset(
         "MODULO",
         "MULTIPLY",
         "OR",
-        "POWER" "RSHIFT",
+        "RSHIFT",
         "SUBTRACT",
         "TRUE_DIVIDE",
         "XOR",
-- 
2.43.0


From d911ef1730f72596bf4581b6cea4020a68575733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 094/101] fix: do not show what runs to show something

---
 xpython/vm.py | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index d6351ad..be902bd 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -95,6 +95,21 @@ class PyVMUncaughtException(Exception):
     pass
 
 
+def shown(function, *args) -> str:
+    """The text of something of the program, made by ``function``.
+
+    Objects of the program are asked what they look like. That can run code of
+    the program, which is not to be shown in turn, and it can fail.
+    """
+    was_disabled, log.disabled = log.disabled, True
+    try:
+        return function(*args)
+    except Exception:
+        return " (?)"
+    finally:
+        log.disabled = was_disabled
+
+
 def format_instruction(
     frame,
     opc,
@@ -118,11 +133,7 @@ def format_instruction(
     byte_code = opc.opmap.get(bytecode_name, 0)
 
     if vm and bytecode_name in vm.byteop.stack_fmt:
-        try:
-            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
-        except Exception:
-            # Operands can be anything; asking them what they look like can fail.
-            stack_args = " (?)"
+        stack_args = shown(vm.byteop.stack_fmt[bytecode_name], vm, int_arg, repr)
     else:
         stack_args = ""
 
@@ -377,13 +388,14 @@ class PyVM(object):
         # The callargs default is safe because we never modify the dict.
         # pylint: disable=dangerous-default-value
 
-        log.debug(
-            "make_frame: code=%r, callargs=%r, f_globals=%r, f_locals=%r",
-            code,
-            callargs,
-            (type(f_globals), id(f_globals)),
-            (type(f_locals), id(f_locals)),
-        )
+        if log.isEnabledFor(logging.DEBUG):
+            log.debug(
+                "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
+                code,
+                shown(repr, callargs),
+                (type(f_globals), id(f_globals)),
+                (type(f_locals), id(f_locals)),
+            )
         if f_globals is not None:
             f_globals = f_globals
             if f_locals is None:
@@ -670,13 +682,8 @@ class PyVM(object):
         )
         indent = "    " * (len(self.frames) - 1)
         if log.isEnabledFor(logging.DEBUG):
-            try:
-                stack_rep = repr(self.frame.stack)
-                block_stack_rep = repr(self.frame.block_stack)
-            except Exception:
-                # What is on the stack can be anything.
-                stack_rep = block_stack_rep = "?"
-
+            stack_rep = shown(repr, self.frame.stack)
+            block_stack_rep = shown(repr, self.frame.block_stack)
             log.debug(f"  {indent}frame.stack: {stack_rep}")
             log.debug(f"  {indent}blocks     : {block_stack_rep}")
         log.info(f"{indent}{op}")
-- 
2.43.0


From 6f4a0d1fdf7a2965deeaaa751a716804e706820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 095/101] fix: report an uncaught exception that has no text

---
 xpython/vm.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index be902bd..ddcc25d 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -506,11 +506,14 @@ class PyVM(object):
                 print("Traceback (most recent call last):", file=sys.stderr)
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(
-                    f"{self.last_exception[0].__name__}:",
-                    self.last_exception[1],
-                    file=sys.stderr,
-                )
+                exc_info = self.last_exception
+                try:
+                    message = str(exc_info[1])
+                except Exception:
+                    # As in CPython, that does not hide the exception.
+                    message = "<exception str() failed>"
+                self.last_exception = exc_info
+                print(f"{exc_info[0].__name__}:", message, file=sys.stderr)
             return 1
 
         # Frame ran to normal completion... check some invariants
-- 
2.43.0


From 72eaac2967f5adb69303c06567ca6add5dcafef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 096/101] fix: show the name of a function called with keywords

---
 xpython/byteop/byteop24.py     | 2 +-
 xpython/byteop/byteop36.py     | 3 +--
 xpython/byteop/byteop36pypy.py | 6 +++++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 3c95198..c1be39b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -76,7 +76,7 @@ def fmt_call_function(vm, argc: int, repr=repr):
     returns the name of the function from the code object in the stack
     """
     name_default, pos_args = divmod(argc, 256)
-    return fmt_callable_name(vm.peek(name_default + pos_args + 1))
+    return fmt_callable_name(vm.peek(2 * name_default + pos_args + 1))
 
 
 def fmt_make_function(vm, _=None, repr=repr):
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 81d3936..f1a3cf0 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -37,9 +37,8 @@ def fmt_call_function(vm, argc: int, repr_fn=repr) -> str:
     """
     returns the name of the function from the code object in the stack
     """
-    name_default, pos_args = divmod(argc, 256)
     # FIXME: give info on pos_args. Right now this is okay only for pos_args == 0
-    return fmt_callable_name(vm.peek(pos_args + 1))
+    return fmt_callable_name(vm.peek(argc + 1))
 
 
 def fmt_call_function_kw(vm, argc, repr=repr) -> str:
diff --git a/xpython/byteop/byteop36pypy.py b/xpython/byteop/byteop36pypy.py
index c54a3c2..616f72c 100644
--- a/xpython/byteop/byteop36pypy.py
+++ b/xpython/byteop/byteop36pypy.py
@@ -1,7 +1,7 @@
 """Bytecode Interpreter operations for PyPy 3.6
 """
 
-from xpython.byteop.byteop24 import ByteOp24
+from xpython.byteop.byteop24 import ByteOp24, fmt_call_function
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.byteop.byteop36 import ByteOp36
 from xpython.byteop.byteoppypy import ByteOpPyPy
@@ -12,6 +12,10 @@ class ByteOp36PyPy(ByteOp36, ByteOpPyPy):
         super(ByteOp36PyPy, self).__init__(vm)
         self.is_pypy = True
 
+        # See below for what is different from CPython's calls.
+        self.stack_fmt["CALL_FUNCTION"] = fmt_call_function
+        del self.stack_fmt["CALL_FUNCTION_KW"]
+
         # Fake up version information not already faked in super.
         self.version = "3.6.9 (x-python, Oct 27 1955, 00:00:00)\n[PyPy with x-python]"
 
-- 
2.43.0


From 98ae1fc5a01e40f084aca7cfe98f3fc7f136c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 097/101] fix: show the arguments of a PyPy method call in
 order

---
 xpython/byteop/byteop37pypy.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 97241df..513f5da 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -5,6 +5,7 @@
 # See the documentation for the full license.
 """Bytecode Interpreter operations for PyPy 3.7
 """
+from xpython.byteop.byteop24 import fmt_callable_name
 from xpython.byteop.byteop37 import ByteOp37
 from xpython.byteop.byteoppypy import ByteOpPyPy
 
@@ -13,9 +14,9 @@ def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
     """
     formats function name (without enclosing object), and positional args.
     """
-    pos_args = [vm.peek(i + 1) for i in range(argc)]
+    pos_args = [vm.peek(i) for i in range(argc, 0, -1)]
 
-    fn_name = vm.peek(argc + 2).__name__
+    fn_name = fmt_callable_name(vm.peek(argc + 2)).strip(" ()")
     return f""" {fn_name}({", ".join((repr_fn(a) for a in pos_args))})"""
 
 
@@ -24,18 +25,13 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     formats function name (without enclosing object), positional  and keyword args.
     """
     kwarg_names = vm.peek(1)
-    kwargs_count = len(kwarg_names)
-    kwargs_list = []
-    for i in range(kwargs_count):
-        kwargs_list.append(f"{kwarg_names[i]}={repr(vm.peek(i+1))}")
-
-    pos_args = []
-    j = kwargs_count + 2
-    for i in range(argc - kwargs_count):
-        pos_args.append(vm.peek(i + j))
-
-    fn_name = vm.peek(argc + 3).__name__
-    return f""" {fn_name}({", ".join((repr(a) for a in pos_args + kwargs_list))})"""
+    args = [repr(vm.peek(i)) for i in range(argc + 1, 1, -1)]
+    pos_count = argc - len(kwarg_names)
+    for i, name in enumerate(kwarg_names, pos_count):
+        args[i] = f"{name}={args[i]}"
+
+    fn_name = fmt_callable_name(vm.peek(argc + 3)).strip(" ()")
+    return f""" {fn_name}({", ".join(args)})"""
 
 
 class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
-- 
2.43.0


From 7a6182285640fc25f942aa1e079b78511ace32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 098/101] fix: remember the exception that was handled when
 another one was raised

---
 xpython/byteop/byteop.py |  1 +
 xpython/vm.py            | 41 +++++++++++++++++++++++++++++++++++++++-
 xpython/vmtrace.py       |  6 +++++-
 3 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 267e32b..59e9505 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -524,6 +524,7 @@ class ByteOpBase(object):
 
             val.__cause__ = cause
 
+        self.vm.chain_exception(val)
         self.vm.last_exception = exc_type, val, val.__traceback__
         return "exception"
 
diff --git a/xpython/vm.py b/xpython/vm.py
index ddcc25d..34ea797 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -95,6 +95,20 @@ class PyVMUncaughtException(Exception):
     pass
 
 
+def is_chained(value) -> bool:
+    """Was `value` raised while another exception was handled, and not by x-python
+    itself for reasons of its own?
+    """
+    context = value.__context__
+    if context is None:
+        return False
+    tb = context.__traceback__
+    if tb and tb.tb_frame.f_globals.get("__package__", "").startswith("xpython"):
+        value.__context__ = None
+        return False
+    return True
+
+
 def shown(function, *args) -> str:
     """The text of something of the program, made by ``function``.
 
@@ -344,6 +358,25 @@ class PyVM(object):
             frame = frame.f_back
         return (None, None, None)
 
+    def chain_exception(self, value):
+        """Note in `value`, which is raised, the exception that is being handled."""
+        if not (3, 0) <= self.version < (3, 11):
+            return
+        handled = self.handled_exception()[1]
+        if handled is None or handled is value:
+            return
+
+        # Avoid cycles.
+        seen = {id(handled)}
+        exc = handled
+        while exc.__context__ is not None and id(exc.__context__) not in seen:
+            if exc.__context__ is value:
+                exc.__context__ = None
+                break
+            exc = exc.__context__
+            seen.add(id(exc))
+        value.__context__ = handled
+
     def restore_traceback(self):
         """Note for an exception that is raised again where it was raised first."""
         value = self.last_exception[1]
@@ -744,6 +777,8 @@ class PyVM(object):
             exc_info = sys.exc_info()
             if exc_info[1] is not self.leaving_frame:
                 self.last_traceback = byteop.traceback_from_frame()
+                if not is_chained(exc_info[1]):
+                    self.chain_exception(exc_info[1])
             self.leaving_frame = None
             self.last_exception = exc_info
 
@@ -975,7 +1010,11 @@ class PyVM(object):
                 # the instruction that called us.
                 if isinstance(last_exception[1], BaseException):
                     self.leaving_frame = last_exception[1]
-                    raise last_exception[1]
+                    context = last_exception[1].__context__
+                    try:
+                        raise last_exception[1]
+                    finally:
+                        last_exception[1].__context__ = context
                 raise last_exception[0]
             else:
                 raise PyVMError("Borked exception recording")
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 5de910c..6fddc35 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -375,7 +375,11 @@ class PyVMTraced(PyVM):
                 # the instruction that called us.
                 if isinstance(last_exception[1], BaseException):
                     self.leaving_frame = last_exception[1]
-                    raise last_exception[1]
+                    context = last_exception[1].__context__
+                    try:
+                        raise last_exception[1]
+                    finally:
+                        last_exception[1].__context__ = context
                 raise last_exception[0]
             else:
                 raise PyVMError("Borked exception recording")
-- 
2.43.0


From 143f5bb262d69fd624f37c7bf03fbe799a48468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 099/101] fix: raise ... from None hides the context

---
 xpython/byteop/byteop.py   | 7 +++++--
 xpython/byteop/byteop32.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 59e9505..3efeea9 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -489,7 +489,7 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
-    def do_raise(self, exc, cause):
+    def do_raise(self, exc, cause, has_cause=False):
         if exc is None:  # reraise
             exc_info = self.vm.handled_exception()
             if exc_info[0] is None:
@@ -516,9 +516,12 @@ class ByteOpBase(object):
         # If you reach this point, you're guaranteed that
         # val is a valid exception instance and exc_type is its class.
         # Now do a similar thing for the cause, if present.
-        if cause is not None:
+        if has_cause:
             if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
+            elif cause is None and self.version_info[:2] >= (3, 3):
+                # "from None" hides the context.
+                pass
             elif not isinstance(cause, BaseException):
                 raise TypeError("exception causes must derive from BaseException")
 
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 1d08e2f..3210401 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -255,7 +255,7 @@ class ByteOp32(ByteOp27):
             exc = self.vm.pop()
         if argc and exc is None:
             raise TypeError("exceptions must derive from BaseException")
-        return self.do_raise(exc, cause)
+        return self.do_raise(exc, cause, argc == 2)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 79ff46670dbee08ab7903acf091c4a9c4fb9fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 100/101] fix: let a program throw exceptions into generators
 and close them

---
 xpython/byteop/byteop33.py |   1 +
 xpython/pyobj.py           | 100 ++++++++++++++++++++++++++++++++++++-
 xpython/vm.py              |  18 ++++++-
 xpython/vmtrace.py         |   3 ++
 4 files changed, 118 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 3fe119a..a5db93e 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -107,6 +107,7 @@ class ByteOp33(ByteOp32):
             else:
                 self.vm.jump(self.vm.frame.f_lasti - 1)
             self.vm.frame.generator.finished = False
+            self.vm.frame.generator.delegate = x
             return "yield"
 
     # Python 3.3 docs describe a 3.4 MAKE_FUNCTION but seem to follow pre-3.3
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 59acb8a..e1a21d0 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -646,6 +646,9 @@ class Frame(object):
         # with the traceback of where it was raised (Python 2.x only).
         self.caught = collections.deque(maxlen=20)
         self.generator = None
+
+        # The exception that is to be raised when its generator is resumed.
+        self.thrown = None
         self.version = version
 
         # These are sentinel or bogus values to start out.
@@ -748,6 +751,10 @@ class Generator(object):
         self.started = False
         self.finished = False
         self.gi_running = False
+
+        # What it waits for in "yield from".
+        self.delegate = None
+
         self.gi_code = g_frame.f_code
         self.__name__ = g_frame.f_code.co_name
         self.__qualname__ = qualname if g_frame.version >= (3, 4) else None
@@ -766,18 +773,24 @@ class Generator(object):
         if self.finished:
             raise StopIteration
 
-        version = self.vm.version
         # Before 2.5 "yield" was a statement, without a value, and before 3.10
         # the first resumption has no value.
+        version = self.vm.version
         if version >= (3, 10) or (self.started and version >= (2, 5)):
             self.gi_frame.stack.append(value)
+        return self.resume()
+
+    def resume(self, thrown=None):
+        """Run it up to its next value, from where `thrown` is raised, if anything."""
+        self.delegate = None
+        self.gi_frame.thrown = thrown
         self.started = True
         self.gi_running = True
         try:
             val = self.vm.resume_frame(self.gi_frame)
         except StopIteration as exc:
             self.finished = True
-            if version >= (3, 7):
+            if self.vm.version >= (3, 7):
                 raise RuntimeError("generator raised StopIteration") from exc
             raise
         except BaseException:
@@ -791,6 +804,89 @@ class Generator(object):
             raise StopIteration(val)
         return val
 
+    def leave_delegate(self):
+        """End its "yield from"; returns what that waited for."""
+        frame = self.gi_frame
+        # See YIELD_FROM: the frame is before that instruction.
+        frame.f_lasti += 2 if self.vm.version >= (3, 6) else 1
+        self.delegate = None
+        return frame.stack.pop()
+
+    def throw(self, exc, value=None, tb=None):
+        """Raise an exception where it is suspended."""
+        if self.gi_running:
+            raise ValueError("generator already executing")
+
+        delegate = self.delegate
+        if delegate is not None:
+            closing = (
+                issubclass(exc, GeneratorExit)
+                if isinstance(exc, type)
+                else isinstance(exc, GeneratorExit)
+            )
+            method = getattr(delegate, "close" if closing else "throw", None)
+            self.gi_running = True
+            try:
+                if closing:
+                    if method:
+                        method()
+                elif method:
+                    # (Not with the arguments that were not given.)
+                    args = [exc, value, tb]
+                    while args[-1] is None:
+                        args.pop()
+                    return method(*args)
+            except StopIteration as e:
+                self.gi_running = False
+                self.leave_delegate()
+                if not closing:
+                    self.gi_frame.stack.append(e.value)
+                    return self.resume()
+                exc, value = e, None
+            except BaseException as e:
+                self.gi_running = False
+                self.leave_delegate()
+                exc, value = e, None
+            finally:
+                self.gi_running = False
+
+        if isinstance(exc, type) and issubclass(exc, BaseException):
+            if isinstance(value, exc):
+                exc = value
+            elif value is None:
+                exc = exc()
+            elif isinstance(value, tuple):
+                exc = exc(*value)
+            else:
+                exc = exc(value)
+        elif not isinstance(exc, BaseException):
+            raise TypeError(
+                "exceptions must be classes or instances deriving from "
+                "BaseException, not %s" % type(exc).__name__
+            )
+        elif value is not None:
+            raise TypeError("instance exception may not have a separate value")
+
+        if self.delegate is not None:
+            self.leave_delegate()
+        if not self.started:
+            self.started = self.finished = True
+        if self.finished:
+            raise exc
+        return self.resume(exc)
+
+    def close(self) -> None:
+        """Raise GeneratorExit where it is suspended; there it has to end."""
+        if not self.started:
+            self.started = self.finished = True
+        if self.finished and not self.gi_running:
+            return
+        try:
+            self.throw(GeneratorExit)
+        except (GeneratorExit, StopIteration):
+            return
+        raise RuntimeError("generator ignored GeneratorExit")
+
     __next__ = next
 
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 34ea797..4608c55 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -6,7 +6,7 @@ import linecache
 import logging
 import os
 import sys
-from typing import Any, List
+from typing import Any, List, Optional
 
 from xdis import (
     CO_NEWLOCALS,
@@ -503,6 +503,19 @@ class PyVM(object):
             if line:
                 print("    " + line.strip())
 
+    def throw_into(self, frame) -> Optional[str]:
+        """Raise the exception that was thrown into the generator of `frame`, if any,
+        where it is suspended."""
+        value, frame.thrown = frame.thrown, None
+        if value is None:
+            return None
+        self.last_exception = (type(value), value, value.__traceback__)
+        self.last_traceback = self.byteop.traceback_from_frame()
+        why = "exception"
+        while why and frame.block_stack:
+            why = self.manage_block_stack(why)
+        return why
+
     def resume_frame(self, frame):
         frame.f_back = self.frame
         log.debug("resume_frame: %r", frame)
@@ -932,7 +945,8 @@ class PyVM(object):
 
         self.push_frame(frame)
         offset = 0
-        while True:
+        why = self.throw_into(frame)
+        while not why:
             (
                 bytecode_name,
                 byte_code,
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 6fddc35..33c31ed 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -242,6 +242,9 @@ class PyVMTraced(PyVM):
         )
 
         offset = 0
+        bytecode_name = int_arg = arguments = line_number = None
+        if not why:
+            why = self.throw_into(frame)
         while not why:
             (
                 bytecode_name,
-- 
2.43.0


From 9154c025e82a91860e2e18c08ca0aa8765a29209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 101/101] fix: hand the arguments of throw() on as they were
 given

---
 xpython/pyobj.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index e1a21d0..a8b7925 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -812,8 +812,14 @@ class Generator(object):
         self.delegate = None
         return frame.stack.pop()
 
-    def throw(self, exc, value=None, tb=None):
-        """Raise an exception where it is suspended."""
+    def throw(self, exc, *rest):
+        """Raise an exception, `exc`, or `exc` and its value and traceback, where it
+        is suspended."""
+        if len(rest) > 2:
+            raise TypeError(
+                "throw expected at most 3 arguments, got %d" % (1 + len(rest))
+            )
+        value = rest[0] if rest else None
         if self.gi_running:
             raise ValueError("generator already executing")
 
@@ -831,11 +837,7 @@ class Generator(object):
                     if method:
                         method()
                 elif method:
-                    # (Not with the arguments that were not given.)
-                    args = [exc, value, tb]
-                    while args[-1] is None:
-                        args.pop()
-                    return method(*args)
+                    return method(exc, *rest)
             except StopIteration as e:
                 self.gi_running = False
                 self.leave_delegate()
-- 
2.43.0

