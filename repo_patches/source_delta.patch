From 4e1126f5b3052c911e84c97dca71c53546d89581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:06 +0000
Subject: [PATCH 01/50] fix: follow the out edges of a vertex when searching
 for the common next vertex

The list of edges to follow was built by iterating over itself and therefore
always empty: joins were never found and structured programs decompiled to jumps.
---
 .../ssb_converting/decompiler/graph_building/graph_utils.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3406c8d..889ff67 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -173,10 +173,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Potential endless recursion situation. Abort.
                         new_es_entry.add(None)
                         continue
-                v_es: list[Edge] = []
-                for e in v_es:
-                    if e.index in g.es:
-                        v_es.append(e)
+                v_es: list[Edge] = v.out_edges()
                 if not allow_loop_edges:
                     # Remove edges marked as looping
                     v_es = [e for e in v_es if not any_incoming_edge_is_loop(e.target_vertex)]
-- 
2.43.0


From 02be5d65c174a806b94ac170ad9f71ce5839ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:06 +0000
Subject: [PATCH 02/50] fix: only fold a lone jump into block headers when they
 jump to the block

Negated headers jump over the block and case blocks can be reached by falling
through from the previous case; the jump must stay in both situations.
---
 .../ssb_converting/compiler/compile_handlers/abstract.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..2f079ad 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -150,7 +150,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
             - If the sub-block only has one single label jump, it's removed and the target
-              of the headers is changed to the target of that jump
+              of the headers is changed to the target of that jump. This is only done for positive headers and
+              if other blocks can not fall through into this block (insert_the_jump_if_needed).
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -170,7 +171,9 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self.end_label = SsbLabel(self.compiler_ctx.counter_labels(), -1, f"{self.__class__.__name__} block end label")
 
         if (
-            len(self._header_jump_blueprints) > 0
+            insert_the_jump_if_needed
+            and len(self._header_jump_blueprints) > 0
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
-- 
2.43.0


From f7887819eb87f34b22068c966540cec3ef0546b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 03/50] fix: terminate routines ending on a label instead of
 replacing all jumps to it

Branches, cases and calls to a label at the end of a routine were replaced by an
unconditional return, jumps from other routines lost their target and a routine
consisting only of labels crashed the compiler.
---
 .../compiler/compile_handlers/abstract.py     | 12 ++++-
 .../compile_handlers/functions/coro_def.py    |  2 +-
 .../functions/for_target_def.py               |  2 +-
 .../compile_handlers/functions/simple_def.py  |  2 +-
 .../ssb_converting/compiler/utils.py          | 48 -------------------
 explorerscript/ssb_converting/ssb_compiler.py |  4 +-
 6 files changed, 16 insertions(+), 54 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 2f079ad..085632c 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -35,7 +35,7 @@ from antlr4 import ParserRuleContext
 
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP, OP_DUMMY_END
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
@@ -264,6 +264,16 @@ class AbstractFuncdefCompileHandler(AbstractCompileHandler[CTX, AbstractCompileH
             ops += ops_of_h
         return ops
 
+    def collect_routine_ops(self) -> list[SsbOperation]:
+        """
+        Collects all operations of a routine that gets written. Labels need an operation they point to,
+        so if the routine ends on a label, it's terminated with a OP_DUMMY_END.
+        """
+        ops = self.collect_ops()
+        if len(ops) > 0 and isinstance(ops[-1], SsbLabel):
+            ops.append(self._added_handlers[-1]._generate_operation(OP_DUMMY_END, []))
+        return ops
+
     @abstractmethod
     def get_new_routine_id(self, old_id: int) -> int:
         pass
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
index 60a6641..680b405 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
@@ -32,7 +32,7 @@ from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRout
 class CoroDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Coro_defContext]):
     def collect(self) -> Any:
         """Collects name of the coroutine, routine info and operations."""
-        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_ops()
+        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return old_id + 1
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index f8cf6c0..42a5366 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -67,7 +67,7 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         else:
             raise SsbCompilerError("A targeted routine must be 'for' an 'actor', 'object' or 'performer'.")
 
-        return routine_info, self.collect_ops()
+        return routine_info, self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
index adc1168..a0d1ac5 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
@@ -33,7 +33,7 @@ from explorerscript.util import exps_int
 class SimpleDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Simple_defContext]):
     def collect(self) -> Any:
         """Collects routine info and operations."""
-        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_ops()
+        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..768f0ab 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -23,7 +23,6 @@
 from __future__ import annotations
 
 import itertools
-import logging
 from collections import deque
 from typing import TYPE_CHECKING, MutableSequence, Iterable, Any
 
@@ -37,12 +36,10 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
     SsbLabelJump,
     OPS_THAT_END_CONTROL_FLOW,
-    OP_DUMMY_END,
     OPS_CTX,
 )
 from explorerscript.util import f, _
 
-logger = logging.getLogger(__name__)
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.compiler.compile_handlers.abstract import AnyLoopBlockCompileHandler
@@ -252,51 +249,6 @@ def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> boo
     return True
 
 
-def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
-    """
-    Checks if the last opcode of a routine is a label, and if so
-    removes it. if there are jumps to it, they are removed and replaced with an OP_DUMMY_END.
-    """
-    logger.debug("Stripping last label...")
-    returned_routine_ops = []
-    for routine in routine_ops:
-        if len(routine) > 0:
-            jump_counts: dict[int, int] = {}
-            for op in routine:
-                if isinstance(op, SsbLabelJump) and op.label is not None:
-                    jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
-
-            while isinstance(routine[-1], SsbLabel):
-                indices_to_remove = set()
-                label = routine[-1]
-                # Remove the label
-                del routine[-1]
-                # Replace the jumps to it with returns
-                op_before_ends_control_flow = False
-                for op_i, op in enumerate(routine):
-                    if isinstance(op, SsbLabelJump) and op.label == label:
-                        # We only have to insert the OP_DUMMY_END, if the previous op didn't end control flow
-                        if op_before_ends_control_flow:
-                            indices_to_remove.add(op_i)
-                        else:
-                            routine[op_i] = SsbOperation(op.offset, SsbOpCode(-1, OP_DUMMY_END), [])
-                            op_before_ends_control_flow = False
-                    else:
-                        if isinstance(op, SsbLabel):
-                            # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
-                                op_before_ends_control_flow = False
-                        else:
-                            op_before_ends_control_flow = does_op_end_control_flow(
-                                op, routine[op_i - 1] if op_i > 0 else None
-                            )
-                routine = [x for i, x in enumerate(routine) if i not in indices_to_remove]
-            returned_routine_ops.append(routine)
-        else:
-            returned_routine_ops.append([])
-    return returned_routine_ops
-
-
 def does_op_end_control_flow(op: SsbOperation, previous_op: SsbOperation | None) -> bool:
     if previous_op is not None and previous_op.op_code.name in OPS_CTX:
         return False
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..84babbe 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -38,7 +38,7 @@ from explorerscript.ssb_converting.compiler.compiler_visitor.routine_visitor imp
 from explorerscript.ssb_converting.compiler.label_finalizer import LabelFinalizer
 from explorerscript.ssb_converting.compiler.label_jump_to_remover import OpsLabelJumpToRemover
 from explorerscript.ssb_converting.compiler.meta_attributes import parse_exps_meta_attributes, ExpsMetaAttributes
-from explorerscript.ssb_converting.compiler.utils import routine_op_offsets_are_ordered, strip_last_label
+from explorerscript.ssb_converting.compiler.utils import routine_op_offsets_are_ordered
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbRoutineInfo
 from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler
 from explorerscript.util import open_utf8, f, _
@@ -239,7 +239,7 @@ class ExplorerScriptSsbCompiler:
         assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
 
         # Copy from listener / remove labels and label jumps
-        label_finalizer = LabelFinalizer(strip_last_label(compiler_visitor.routine_ops))
+        label_finalizer = LabelFinalizer(compiler_visitor.routine_ops)
 
         self.routine_ops = OpsLabelJumpToRemover(label_finalizer.routines, label_finalizer.label_offsets).routines
         self.routine_infos = compiler_visitor.routine_infos
-- 
2.43.0


From b4afd8ea7d49f8ed36785b7bdd44e4eba5803436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 04/50] fix: only drop jumps that lead to the very next op

---
 .../ssb_converting/compiler/label_finalizer.py       | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..06b5964 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -25,7 +25,7 @@ from __future__ import annotations
 import logging
 
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP, OPS_CTX
 
 logger = logging.getLogger(__name__)
 
@@ -51,7 +51,13 @@ class LabelFinalizer:
                     new_r.append(op)
                 else:
                     op_was_removed = False
-                    if isinstance(op, SsbLabelJump) and op.root.op_code.name == OP_JUMP:
+                    previous_op = r[op_i - 1] if op_i > 0 else None
+                    if (
+                        isinstance(op, SsbLabelJump)
+                        and op.root.op_code.name == OP_JUMP
+                        # An op after a context op can't be removed: the next op would be run in that context instead.
+                        and (previous_op is None or previous_op.op_code.name not in OPS_CTX)
+                    ):
                         # Remove any regular jumps that just jump to a label right after
                         for label in self._labels_after(r, op_i):
                             if op.label == label:
@@ -75,7 +81,7 @@ class LabelFinalizer:
                     # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
                     have_match = False
-                    if skip_redundant_label_jumps:
+                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From bd8b1ad196d4f11cd4bde07198152f632400b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 05/50] fix: reject routine ids that do not start at 0 and
 increase by one

---
 .../compiler_visitor/routine_visitor.py       | 27 ++++++++++---------
 .../compiler/compiler_listener.py             | 27 +++++++++----------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..3679cfc 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -26,6 +26,7 @@ from typing import cast
 
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
+from explorerscript.error import SsbCompilerError
 from explorerscript.macro import ExplorerScriptMacro
 from explorerscript.source_map import SourceMapBuilder
 from explorerscript.ssb_converting.compiler.compile_handlers.abstract import AnyCompileHandler
@@ -36,6 +37,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_de
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
+from explorerscript.util import _, f
 
 
 class RoutineVisitor(ExplorerScriptVisitor):
@@ -79,8 +81,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
 
     def visitSimple_def(self, ctx: ExplorerScriptParser.Simple_defContext) -> None:
         self._root_handler = SimpleDefCompileHandler(ctx, self.compiler_ctx)
-        self._active_routine_id = self._root_handler.get_new_routine_id(self._active_routine_id)
-        self._enlarge_routine_info()
+        self._enter_routine(self._root_handler.get_new_routine_id(self._active_routine_id))
 
         self.visitChildren(ctx)
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
@@ -89,8 +90,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
 
     def visitCoro_def(self, ctx: ExplorerScriptParser.Coro_defContext) -> None:
         self._root_handler = CoroDefCompileHandler(ctx, self.compiler_ctx)
-        self._active_routine_id = self._root_handler.get_new_routine_id(self._active_routine_id)
-        self._enlarge_routine_info()
+        self._enter_routine(self._root_handler.get_new_routine_id(self._active_routine_id))
 
         self.visitChildren(ctx)
         (
@@ -101,8 +101,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
 
     def visitFor_target_def(self, ctx: ExplorerScriptParser.For_target_defContext) -> None:
         self._root_handler = ForTargetDefCompileHandler(ctx, self.compiler_ctx)
-        self._active_routine_id = self._root_handler.get_new_routine_id(self._active_routine_id)
-        self._enlarge_routine_info()
+        self._enter_routine(self._root_handler.get_new_routine_id(self._active_routine_id))
 
         self.visitChildren(ctx)
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
@@ -121,10 +120,12 @@ class RoutineVisitor(ExplorerScriptVisitor):
         assert isinstance(self._root_handler, ForTargetDefCompileHandler)
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
-    def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+    def _enter_routine(self, routine_id: int) -> None:
+        if routine_id != self._active_routine_id + 1:
+            raise SsbCompilerError(
+                f(_("Routine IDs must start at 0 and increment by one, without gaps: Unexpected routine {routine_id}."))
+            )
+        self._active_routine_id = routine_id
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..0b97560 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -43,7 +43,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamFixedPoint,
 )
 from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
-from explorerscript.util import exps_int, _
+from explorerscript.util import exps_int, _, f
 
 
 class ListenerArgType(Enum):
@@ -92,23 +92,20 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._collected_params: list[SsbOpParam] = []
 
     def exitSimple_def(self, ctx: SsbScriptParser.Simple_defContext) -> None:
-        self._active_routine_id = exps_int(str(ctx.INTEGER()))
-        self._enlarge_routine_info()
+        self._enter_routine(exps_int(str(ctx.INTEGER())))
         self.routine_infos[self._active_routine_id] = SsbRoutineInfo(SsbRoutineType.GENERIC, 0)
         self.routine_ops[self._active_routine_id] = self._collected_ops
         self._collected_ops = []
 
     def exitCoro_def(self, ctx: SsbScriptParser.Coro_defContext) -> None:
-        self._active_routine_id += 1
-        self._enlarge_routine_info()
+        self._enter_routine(self._active_routine_id + 1)
         self.named_coroutines[self._active_routine_id] = str(ctx.IDENTIFIER())
         self.routine_infos[self._active_routine_id] = SsbRoutineInfo(SsbRoutineType.COROUTINE, 0)
         self.routine_ops[self._active_routine_id] = self._collected_ops
         self._collected_ops = []
 
     def exitFor_target_def(self, ctx: SsbScriptParser.For_target_defContext) -> None:
-        self._active_routine_id = exps_int(str(ctx.INTEGER()))
-        self._enlarge_routine_info()
+        self._enter_routine(exps_int(str(ctx.INTEGER())))
         linked_to = -1
         linked_to_name = None
         integer_like = str(ctx.integer_like().children[0])
@@ -312,10 +309,12 @@ class SsbScriptCompilerListener(SsbScriptListener):
         # to the same op.
         self._labels_before_op.append(label)
 
-    def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+    def _enter_routine(self, routine_id: int) -> None:
+        if routine_id != self._active_routine_id + 1:
+            raise SsbCompilerError(
+                f(_("Routine IDs must start at 0 and increment by one, without gaps: Unexpected routine {routine_id}."))
+            )
+        self._active_routine_id = routine_id
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
-- 
2.43.0


From 73158087a1b152346b53a4e0e537cc4c85074249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 06/50] fix: reject jump-carrying operations written without a
 target as plain statements

---
 .../compile_handlers/blocks/ifs/if_header.py   | 11 ++++-------
 .../blocks/switches/switch_header.py           | 15 ++++++++-------
 .../compile_handlers/operations/operation.py   | 18 ++++++++++++++++++
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py
index 2477649..7191d29 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py
@@ -71,15 +71,12 @@ class IfHeaderCompileHandler(AbstractCompileHandler[ExplorerScriptParser.If_head
         if self._header_cmplx_handler:
             if isinstance(self._header_cmplx_handler, OperationCompileHandler):
                 # An operation as condition
-                ops = self._header_cmplx_handler.collect()
-                if len(ops) != 1:
-                    raise SsbCompilerError(_("Invalid content for an if-header"))
-                op = ops[0]
-                if op.op_code.name not in OPS_BRANCH.keys():
+                name, params = self._header_cmplx_handler.collect_header()
+                if name not in OPS_BRANCH.keys():
                     raise SsbCompilerError(
-                        f(_("Invalid operation for if condition: {op.op_code.name} (line {self.ctx.start.line})"))
+                        f(_("Invalid operation for if condition: {name} (line {self.ctx.start.line})"))
                     )
-                jmp = SsbLabelJumpBlueprint(self.compiler_ctx, self.ctx, op.op_code.name, op.params)
+                jmp = SsbLabelJumpBlueprint(self.compiler_ctx, self.ctx, name, params)
                 jmp.set_jump_is_positive(is_positive)
                 return jmp
             else:
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_header.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_header.py
index 8df2da5..e9b550c 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_header.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_header.py
@@ -49,8 +49,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.swi
 from explorerscript.ssb_converting.compiler.compile_handlers.operations.operation import OperationCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import OP_SWITCH
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_special_ops import OP_SWITCH, OPS_WITH_JUMP_TO_MEM_OFFSET
+from explorerscript.util import _, f
 
 _SupportedHandlers: TypeAlias = Union[
     SwitchHeaderDungeonModeCompileHandler,
@@ -75,11 +75,12 @@ class SwitchHeaderCompileHandler(AbstractCompileHandler[ExplorerScriptParser.Swi
                 return self._generate_operation(OP_SWITCH, [self._header_cmplx_handler.collect()])
             elif isinstance(self._header_cmplx_handler, OperationCompileHandler):
                 # An operation as condition
-                ops = self._header_cmplx_handler.collect()
-                if len(ops) != 1:
-                    raise SsbCompilerError(_("Invalid content for a switch-header"))
-                op = ops[0]
-                return self._generate_operation(op.op_code.name, op.params)
+                name, params = self._header_cmplx_handler.collect_header()
+                if name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+                    raise SsbCompilerError(
+                        f(_("Invalid operation for a switch-header: {name} (line {self.ctx.start.line})"))
+                    )
+                return self._generate_operation(name, params)
             else:
                 # A regular complex if condition
                 return self._header_cmplx_handler.collect()
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py
index 9fdca10..a8d6055 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py
@@ -41,6 +41,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     OPS_CTX_LIVES,
     OPS_CTX_OBJECT,
     OPS_CTX_PERFORMER,
+    OPS_WITH_JUMP_TO_MEM_OFFSET,
 )
 from explorerscript.util import _, f
 
@@ -57,6 +58,12 @@ class OperationCompileHandler(
         name = str(self.ctx.IDENTIFIER())
         args: list[SsbOpParam] = []
 
+        if name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+            # The target of these can only be given via labels or blocks.
+            raise SsbCompilerError(
+                f(_("The operation {name} can not be used as a statement (line {self.ctx.start.line})."))
+            )
+
         ops = []
         inline_ctx = self.ctx.inline_ctx()
         if inline_ctx is not None:
@@ -80,6 +87,17 @@ class OperationCompileHandler(
         ops.append(self._generate_operation(name, args))
         return ops
 
+    def collect_header(self) -> tuple[str, list[SsbOpParam]]:
+        """Collects name and arguments, for operations used as the header of a block."""
+        if self.ctx.inline_ctx() is not None:
+            raise SsbCompilerError(
+                f(_("Operations in block headers can not have an inline context (line {self.ctx.start.line})."))
+            )
+        args: list[SsbOpParam] = []
+        if self.arg_list_handler:
+            args = self.arg_list_handler.collect()
+        return str(self.ctx.IDENTIFIER()), args
+
     def add(self, obj: Union[ArgListCompileHandler, IntegerLikeCompileHandler]) -> None:
         if isinstance(obj, ArgListCompileHandler):
             self.arg_list_handler = obj
-- 
2.43.0


From b00eb558883e10745cc796f28160a0be93d181d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 07/50] fix: reject SsbScript jumps without a label as their
 last argument

---
 .../ssb_converting/compiler/compiler_listener.py      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 0b97560..1854b99 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -42,7 +42,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import exps_int, _, f
 
 
@@ -147,6 +147,10 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._total_number_collected_ops += 1
         root_op = SsbOperation(self._total_number_collected_ops, SsbOpCode(-1, op_code_name), collected_params)
         if not self._turn_next_op_into_label_jump_for:
+            if op_code_name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+                raise SsbCompilerError(
+                    f(_("The last argument of {op_code_name} must be a label (line {ctx.start.line})."))
+                )
             self._collected_ops.append(root_op)
         else:
             self._collected_ops.append(SsbLabelJump(root_op, self._turn_next_op_into_label_jump_for))
@@ -193,7 +197,10 @@ class SsbScriptCompilerListener(SsbScriptListener):
 
     def exitPos_argument(self, ctx: SsbScriptParser.Pos_argumentContext) -> None:
         self._is_processing_argument = False
-        self._turn_next_op_into_label_jump_for = None
+        if self._turn_next_op_into_label_jump_for is not None:
+            raise SsbCompilerError(
+                f(_("Labels can only be used as the last argument of an operation (line {ctx.start.line})."))
+            )
         if self._argument_type == ListenerArgType.JUMP:
             label_name = self._argument_value
             assert isinstance(label_name, str)
-- 
2.43.0


From bf050e20492db8f1549d470273f6d517b3d37b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 08/50] fix: only accept .5 as the half tile of position mark
 arguments

---
 explorerscript/common_syntax.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index aebd3ee..5c37258 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -36,21 +36,13 @@ def parse_position_marker_arg(
     if ctx.INTEGER():
         pos = exps_int(str(ctx.INTEGER()))
     elif ctx.DECIMAL():
-        decimal_parts = str(ctx.DECIMAL()).split(".")
+        pos_part, dec_part = str(ctx.DECIMAL()).split(".")
+        pos = int(pos_part if pos_part not in ("", "-") else "0")
+        dec_part = dec_part.rstrip("0")  # strip 0s off the decimal places
 
-        if len(decimal_parts) == 1:  # .XXXXX
-            dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
-        elif len(decimal_parts) == 2:  # XXXXX.YYYYY
-            pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
-            dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
-        else:
-            raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
-
-        if dec_part == 5:
+        if dec_part == "5":
             offset = 2
-        elif dec_part == 0:
+        elif dec_part == "":
             offset = 0
         else:
             raise SsbCompilerError(
-- 
2.43.0


From 1e278faf89692cb8e816c4bb2f23260a88685d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 09/50] fix: reject decimals as the target of routines

---
 .../compile_handlers/functions/for_target_def.py    | 13 +++++++++++--
 .../ssb_converting/compiler/compiler_listener.py    |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index 42a5366..cd7e190 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -34,8 +34,13 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 )
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam
-from explorerscript.util import exps_int
+from explorerscript.ssb_converting.ssb_data_types import (
+    SsbRoutineInfo,
+    SsbRoutineType,
+    SsbOpParam,
+    SsbOpParamFixedPoint,
+)
+from explorerscript.util import exps_int, _, f
 
 
 class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.For_target_defContext]):
@@ -50,6 +55,10 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         linked_to = -1
         linked_to_name = None
         integer_like = self._linked_to_target
+        if isinstance(integer_like, SsbOpParamFixedPoint):
+            raise SsbCompilerError(
+                f(_("The target of a routine can not be a decimal: {integer_like} (line {self.ctx.start.line})."))
+            )
         try:
             linked_to = exps_int(integer_like)  # type: ignore
         except ValueError:
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 1854b99..6722fe5 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -109,6 +109,10 @@ class SsbScriptCompilerListener(SsbScriptListener):
         linked_to = -1
         linked_to_name = None
         integer_like = str(ctx.integer_like().children[0])
+        if ctx.integer_like().DECIMAL():
+            raise SsbCompilerError(
+                f(_("The target of a routine can not be a decimal: {integer_like} (line {ctx.start.line})."))
+            )
         try:
             linked_to = exps_int(integer_like)
         except ValueError:
-- 
2.43.0


From 1771b380231cd9354f543bb942110e4f484ae17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 10/50] fix: build the SsbScript ops after parsing succeeded

---
 .../ssb_script/ssb_converting/ssb_compiler.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..dadc794 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -87,11 +87,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +97,10 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        # Only walk the tree if it's complete: The listener expects all parts of the rules to exist.
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker.DEFAULT.walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From eef915fbf69b25b2a89dc188a724219339c3cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 11/50] fix: do not read attributes past the end of the file

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..dc47a69 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -38,7 +38,7 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     if len(lines) < 1:
         return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From caf97fc3064771d177cf8ad054c08ee76d38e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 12/50] fix: compare source map entries by value and keep macro
 call sites and return addresses

---
 explorerscript/source_map.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..8467168 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -149,6 +149,11 @@ class SourceMapping:
         self.line = line_number
         self.column = column
 
+    def __eq__(self, other: object) -> bool:
+        if type(self) is not type(other):
+            return False
+        return self.__dict__ == other.__dict__
+
     def serialize(self) -> list[Any]:
         return [self.line, self.column]
 
@@ -206,8 +211,9 @@ class MacroSourceMapping(SourceMapping):
 
     @classmethod
     def deserialize(cls, data_list: list[Any]) -> MacroSourceMapping:
+        called_in = tuple(data_list[4]) if data_list[4] is not None else None
         return MacroSourceMapping(
-            data_list[0], data_list[1], data_list[2], data_list[3], data_list[4], data_list[5], data_list[6]
+            data_list[0], data_list[1], data_list[2], data_list[3], called_in, data_list[5], data_list[6]
         )
 
 
@@ -298,7 +304,12 @@ class SourceMap:
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SourceMap):
             return False
-        return self._mappings == other._mappings and self._position_marks == other._position_marks
+        return (
+            self._mappings == other._mappings
+            and self._position_marks == other._position_marks
+            and self._mappings_macros == other._mappings_macros
+            and self._position_marks_macro == other._position_marks_macro
+        )
 
     def __str__(self) -> str:
         return self.serialize()
@@ -346,7 +357,7 @@ class SourceMap:
         max_old_offset = max(new_mapping.keys())
 
         for m in self._mappings_macros.values():
-            if m.return_addr:
+            if m.return_addr is not None:
                 addr: int | None = m.return_addr
                 while addr not in new_mapping:
                     # if the return addr opcode was optimized away, we take the next index. TODO: Good idea?
-- 
2.43.0


From d506cd36a5d0edfeb1104fd75f96b2cc505e95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 13/50] fix: find the routine of a jump target at the end of a
 routine or after an empty one

---
 .../ssb_converting/decompiler/label_jump_to_resolver.py       | 2 +-
 explorerscript/ssb_converting/ssb_special_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
index 732e081..7dc353d 100644
--- a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
+++ b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
@@ -75,7 +75,7 @@ class OpsLabelJumpToResolver:
 
     def _build_end_offsets(self, routines: Sequence[Sequence[SsbOperation]]) -> list[int]:
         offsets = []
-        prev_offset = 0
+        prev_offset = -1
         for routine in routines:
             if len(routine) > 0:
                 last_op = routine[-1]
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..d99497c 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -496,7 +496,7 @@ def process_op_for_jump(
             )
             param_list = list(op.params.values())
         jump_param_idx = OPS_WITH_JUMP_TO_MEM_OFFSET[op.op_code.name]
-        if len(param_list) < jump_param_idx:
+        if len(param_list) <= jump_param_idx:
             raise ValueError(
                 f"The parameters for the OpCode {op.op_code.name} must contain a jump address at index {jump_param_idx}."
             )
@@ -514,7 +514,7 @@ def process_op_for_jump(
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
             # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset < routine_end_offsets[routine_id - 1]:
+            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
                 routine_id -= 1
             while old_offset > routine_end_offsets[routine_id]:
                 routine_id += 1
-- 
2.43.0


From fd3882abdac0be27ceb05ccabf12e89020f177ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 14/50] fix: fall back to SsbScript when the decompiler would
 write an operation again

---
 .../ssb_converting/decompiler/write_handlers/block.py        | 5 +++++
 explorerscript/ssb_converting/ssb_decompiler.py              | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index cfea333..fad2450 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -94,6 +94,7 @@ class BlockWriteHandler(AbstractWriteHandler):
         self.last_vertex = None
 
     def write_content(self) -> Vertex | None:
+        from explorerscript.ssb_converting.decompiler.write_handlers.label import LabelWriteHandler
         from explorerscript.ssb_converting.decompiler.write_handlers.simple_op import SimpleOperationWriteHandler
 
         previous_vertex = None
@@ -120,6 +121,10 @@ class BlockWriteHandler(AbstractWriteHandler):
                 if self.last_handler_in_block.get_real_handler().__name__ == "CtxSimpleOpWriteHandler":
                     raise NestedBlockDisallowedError("A block was not expected to contain any sub-blocks.")
 
+            if not isinstance(self.last_handler_in_block, LabelWriteHandler):
+                # Writing an operation again means we lost track of the control flow, we might never stop doing that.
+                assert self._next_vertex not in self.decompiler.vertices_already_written
+                self.decompiler.vertices_already_written.add(self._next_vertex)
             previous_vertex = self._next_vertex
             self._next_vertex = self.last_handler_in_block.write_content()
             assert self._next_vertex is None or isinstance(self._next_vertex, Vertex)
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..4efdf50 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -26,6 +26,8 @@ import logging
 from copy import deepcopy
 from typing import MutableSequence, Sequence
 
+from igraph import Vertex
+
 from explorerscript.source_map import SourceMapBuilder, SourceMapPositionMark, SourceMap
 from explorerscript.ssb_converting.decompiler.graph_building.graph_minimizer import SsbGraphMinimizer
 from explorerscript.ssb_converting.decompiler.label_jump_to_resolver import OpsLabelJumpToResolver
@@ -66,6 +68,7 @@ class ExplorerScriptSsbDecompiler:
     indent: int
     _line_number: int
     labels_already_printed: list[int] = []
+    vertices_already_written: set[Vertex]
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -95,6 +98,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self._line_number = 1
         self.labels_already_printed = []
+        self.vertices_already_written = set()
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -105,6 +109,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.vertices_already_written = set()
         self._line_number = 1
         self.smb = SourceMapBuilder()
 
-- 
2.43.0


From f310f0c9a3f17244a850abb9c1309849796ba6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 15/50] fix: fall back to SsbScript whatever the decompiler
 raises

---
 explorerscript/ssb_converting/ssb_decompiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 4efdf50..d2e9b65 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -157,8 +157,8 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
+        except Exception:
+            # If something failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
             self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
-- 
2.43.0


From f7fe61beabfcd9a8e04007c22ab646b18d5fb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 16/50] fix: fall back to SsbScript when the decompiled text
 does not behave like the input

---
 .../ssb_converting/decompiler/behavior.py     | 111 ++++++++++++++++++
 .../ssb_converting/ssb_decompiler.py          |  21 ++++
 2 files changed, 132 insertions(+)
 create mode 100644 explorerscript/ssb_converting/decompiler/behavior.py

diff --git a/explorerscript/ssb_converting/decompiler/behavior.py b/explorerscript/ssb_converting/decompiler/behavior.py
new file mode 100644
index 0000000..48c45ac
--- /dev/null
+++ b/explorerscript/ssb_converting/decompiler/behavior.py
@@ -0,0 +1,111 @@
+"""
+Compares the behavior of two sets of ssb routines.
+"""
+
+#  MIT License
+#
+#  Copyright (c) 2020-2024 Capypara and the SkyTemple Contributors
+#
+#  Permission is hereby granted, free of charge, to any person obtaining a copy
+#  of this software and associated documentation files (the "Software"), to deal
+#  in the Software without restriction, including without limitation the rights
+#  to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+#  copies of the Software, and to permit persons to whom the Software is
+#  furnished to do so, subject to the following conditions:
+#
+#  The above copyright notice and this permission notice shall be included in all
+#  copies or substantial portions of the Software.
+#
+#  THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+#  IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+#  FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+#  AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+#  LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+#  OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+#  SOFTWARE.
+#
+from __future__ import annotations
+
+from typing import Callable, Sequence, Tuple
+
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam
+from explorerscript.ssb_converting.ssb_special_ops import (
+    OP_JUMP,
+    OP_RETURN,
+    OPS_CTX,
+    OPS_THAT_END_CONTROL_FLOW,
+    OPS_WITH_JUMP_TO_MEM_OFFSET,
+)
+
+# Routine, index of the op, whether the op is executed in the context of a lives/object/performer op before it.
+Position = Tuple[int, int, bool]
+Routines = Sequence[Sequence[SsbOperation]]
+
+
+class _Reader:
+    """Reads the ops of a set of routines in the order they are executed. Jumps are followed and not read."""
+
+    def __init__(self, routines: Routines):
+        self.routines = routines
+        self.offsets = {op.offset: (r, i) for r, ops in enumerate(routines) for i, op in enumerate(ops)}
+
+    def op_at(self, position: Position) -> tuple[str, Sequence[SsbOpParam], list[Position]]:
+        """Returns the name and parameters (without jump target) of the op and the positions it can continue at."""
+        jumps_followed = set()
+        while True:
+            r, i, in_ctx = position
+            if i >= len(self.routines[r]):
+                return OP_RETURN, [], []
+            op = self.routines[r][i]
+            name = op.op_code.name
+            if name != OP_JUMP:
+                break
+            if position in jumps_followed:
+                return OP_JUMP, [], []
+            jumps_followed.add(position)
+            position = self._target(op)
+        params = list(op.params)
+        continue_at: list[Position] = []
+        if name not in OPS_THAT_END_CONTROL_FLOW or in_ctx:
+            continue_at.append((r, i + 1, name in OPS_CTX))
+        if name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+            del params[OPS_WITH_JUMP_TO_MEM_OFFSET[name]]
+            continue_at.append(self._target(op))
+        return name, params, continue_at
+
+    def _target(self, op: SsbOperation) -> Position:
+        offset = op.params[OPS_WITH_JUMP_TO_MEM_OFFSET[op.op_code.name]]
+        assert isinstance(offset, int)
+        r, i = self.offsets[offset]
+        return r, i, False
+
+
+def behaves_like(
+    expected: Routines, actual: Routines, params_match: Callable[[SsbOpParam, SsbOpParam], bool]
+) -> bool:
+    """
+    Returns whether each routine performs the same ops and tests in both sets of routines,
+    for every outcome of the tests.
+    """
+    if [len(ops) > 0 for ops in expected] != [len(ops) > 0 for ops in actual]:
+        return False
+    expected_reader = _Reader(expected)
+    actual_reader = _Reader(actual)
+    to_visit = [((r, 0, False), (r, 0, False)) for r, ops in enumerate(expected) if len(ops) > 0]
+    already_visited = set()
+    while len(to_visit) > 0:
+        positions = to_visit.pop()
+        if positions in already_visited:
+            continue
+        already_visited.add(positions)
+        name, params, continue_at = expected_reader.op_at(positions[0])
+        actual_name, actual_params, actual_continue_at = actual_reader.op_at(positions[1])
+        if (
+            name != actual_name
+            or len(params) != len(actual_params)
+            or len(continue_at) != len(actual_continue_at)
+            or not all(params_match(x, y) for x, y in zip(params, actual_params))
+        ):
+            return False
+        to_visit += zip(continue_at, actual_continue_at)
+    return True
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index d2e9b65..7cab1be 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -29,14 +29,17 @@ from typing import MutableSequence, Sequence
 from igraph import Vertex
 
 from explorerscript.source_map import SourceMapBuilder, SourceMapPositionMark, SourceMap
+from explorerscript.ssb_converting.decompiler.behavior import behaves_like
 from explorerscript.ssb_converting.decompiler.graph_building.graph_minimizer import SsbGraphMinimizer
 from explorerscript.ssb_converting.decompiler.label_jump_to_resolver import OpsLabelJumpToResolver
 from explorerscript.ssb_converting.decompiler.write_handlers.labels.forever_start import ForeverWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handlers.routine import RoutineWriteHandler
+from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
 from explorerscript.ssb_converting.ssb_data_types import (
     SsbCoroutine,
     SsbRoutineInfo,
     SsbOperation,
+    SsbOpParam,
     NUMBER_OF_SPACES_PER_INDENT,
     SsbOpParamPositionMarker,
     DungeonModeConstants,
@@ -155,6 +158,10 @@ class ExplorerScriptSsbDecompiler:
                 )
                 RoutineWriteHandler(self, r_id, r_info, r_graph).write_content()
 
+            # Step 4:
+            # Not every control flow can be restored, make sure that what we built still does what the script did.
+            assert self._output_behaves_like(raw_routine_backup_ops)
+
             return self._output, self.smb.build()
 
         except Exception:
@@ -184,6 +191,20 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, sm
 
+    def _output_behaves_like(self, routine_ops: Sequence[Sequence[SsbOperation]]) -> bool:
+        """Returns whether compiling the output results in routines that do the same as the given routines."""
+
+        def params_match(expected: SsbOpParam, actual: SsbOpParam) -> bool:
+            if isinstance(expected, int) and not isinstance(actual, int):
+                # May be a dungeon mode, these are printed as constants.
+                return self.dungeon_mode_constants.get_explorerscript_constant_for(expected) == str(actual)
+            return str(expected) == str(actual)
+
+        compiler = ExplorerScriptSsbCompiler(self.performance_progress_list_var_name)
+        compiler.compile(self._output, "")
+        assert compiler.routine_ops is not None
+        return behaves_like(routine_ops, compiler.routine_ops, params_match)
+
     def write_stmnt(self, stmnt: str, line: bool = True) -> None:
         """Write a simple single line statement"""
         if line:
-- 
2.43.0


From ba207013e92be7dc455a28762fda05294067f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 17/50] fix: only print dungeon modes as dungeon mode constants

---
 explorerscript/ssb_converting/ssb_data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..e15bb4f 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -419,14 +419,17 @@ class DungeonModeConstants:
         self.close_constant = close_constant
         self.open_and_request_constant = open_and_request_constant
 
-    def get_explorerscript_constant_for(self, idx: int) -> str:
+    def get_explorerscript_constant_for(self, idx: SsbOpParam) -> str:
+        """Returns the constant for the dungeon mode. Anything else than a dungeon mode is returned as it is written."""
+        if idx == 0:
+            return self.close_constant
         if idx == 1:
             return self.open_constant
         if idx == 2:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From 5d2398d8851265e0cc5ae037c92ab3d6b7b3361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 18/50] fix: do not reuse results of the common next vertex
 search after the graph changed

---
 .../graph_building/graph_minimizer.py         |  8 -----
 .../decompiler/graph_building/graph_utils.py  | 30 +++++++------------
 2 files changed, 10 insertions(+), 28 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..ea5a04e 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -31,7 +31,6 @@ from igraph import IN, Edge, OUT, Vertex, Graph
 from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import (
     any_incoming_edge_is_loop,
     find_first_common_next_vertex_in_edges,
-    find_first_common_next_vertex_in_edges__clear_cache,
     find_first_label_vertex_with_marker_that_matches_condition,
     find_lowest_and_highest_out_edge,
     get_all_vertices_between,
@@ -170,7 +169,6 @@ class SsbGraphMinimizer:
                     self._update_edge_style(else_edge)
 
                     # Common end label
-                    find_first_common_next_vertex_in_edges__clear_cache(g)  # TODO: Cache seems to be broken atm.
                     result = find_first_common_next_vertex_in_edges(g, [if_edge, else_edge])
                     if result is not None:
                         e_on_if_bef_end, e_on_else_bef_end = result
@@ -407,7 +405,6 @@ class SsbGraphMinimizer:
                                 # because of an unfinished inner branch.
                                 # TODO: This could lead to real problems...
                                 logger.warning("Switch-Branches ended via the same edge...")
-                                find_first_common_next_vertex_in_edges__clear_cache(g)
                                 continue
                             already_updated_switch_end_in_edges.append(e)
                             # Remove the jumps before the common end label (if they exist), we don't need them anymore.
@@ -421,7 +418,6 @@ class SsbGraphMinimizer:
                                 es_to_delete.append(e_before_jump)
                                 self._reconnect(g, e_before_jump.source, e_before_jump, end_vertex, True)
                         g.delete_edges(es_to_delete)
-                    find_first_common_next_vertex_in_edges__clear_cache(g)
 
             g.delete_vertices(vs_to_delete)
 
@@ -456,8 +452,6 @@ class SsbGraphMinimizer:
                         self._update_edge_style(first_e)
 
             g.delete_edges(es_to_delete)
-            if len(es_to_delete) > 0:
-                find_first_common_next_vertex_in_edges__clear_cache(g)
 
     def build_switch_fallthroughs(self) -> None:
         """
@@ -523,7 +517,6 @@ class SsbGraphMinimizer:
         logger.debug("Detecting loops...")
         # TODO: Loop detection & creation really needs to be re-written.
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             loop_id = -1
             if len(g.vs) < 1:
                 continue
@@ -686,7 +679,6 @@ class SsbGraphMinimizer:
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             vs_to_delete = set()
             # First, let's delete all redundant jumps (actual OP_JUMPs that jump to opcodes with only one in edge)
             for v in g.vs:
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 889ff67..3bfa7d2 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -27,7 +27,6 @@ import itertools
 import logging
 import operator
 from collections import Counter
-from threading import Lock
 from typing import Callable, Generator, cast, Sequence
 
 from igraph import Edge, OUT, Vertex, Graph
@@ -55,15 +54,6 @@ def find_lowest_and_highest_out_edge(g: Graph, vertex: Vertex, attr: str) -> tup
     return min(edges, key=lambda k: k[attr]), max(edges, key=lambda k: k[attr])
 
 
-cache_lock = Lock()
-find_first_common_next_vertex_in_edges_cache: dict[int, dict[str, list[Edge] | None]] = {}
-
-
-def find_first_common_next_vertex_in_edges__clear_cache(g: Graph) -> None:
-    with cache_lock:
-        find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-
-
 def find_first_common_next_vertex_in_edges(
     g: Graph,
     es: Sequence[Edge] | set[Edge],
@@ -71,6 +61,7 @@ def find_first_common_next_vertex_in_edges(
     allow_loops: bool = False,
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
+    cache: dict[str, list[Edge] | None] | None = None,
 ) -> None | list[Edge]:
     """
     Finds the first vertex (actually list of edges that lead to it for each edge in es)
@@ -96,19 +87,17 @@ def find_first_common_next_vertex_in_edges(
     If no common vertex is found, returns None.
     """
     # TODO: Performance with (not allow_open_branches).
+    # Results of the sub-searches of this search. Must not outlive it: The edge indices change with the graph.
+    if cache is None:
+        cache = {}
     es_ids = ",".join(sorted([str(e.index) for e in es]))
-    with cache_lock:
-        if id(g) not in find_first_common_next_vertex_in_edges_cache:
-            find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-        if es_ids in find_first_common_next_vertex_in_edges_cache[id(g)]:
-            return find_first_common_next_vertex_in_edges_cache[id(g)][es_ids]
+    if es_ids in cache:
+        return cache[es_ids]
     assert len(es) > 1
     result = _find_first_common_next_vertex_in_edges__impl(
-        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges
+        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges, cache
     )
-    with cache_lock:
-        # cache may have been cleared in the meantime
-        find_first_common_next_vertex_in_edges_cache[id(g)][es_ids] = result
+    cache[es_ids] = result
     return result
 
 
@@ -120,6 +109,7 @@ def _find_first_common_next_vertex_in_edges__impl(
     allow_loops: bool,
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
+    cache: dict[str, list[Edge] | None] | None = None,
 ) -> None | list[Edge]:
     """
     :param g: Graph
@@ -190,7 +180,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Recursively find the next new common vertex
                         list_of_visited_vs_on_branch = vs_to_not_visit + list(map_of_visited[i].keys())
                         new_common_vertex_edges = find_first_common_next_vertex_in_edges(
-                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch
+                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch, cache=cache
                         )
                         if new_common_vertex_edges is None:
                             new_es_entry.add(None)
-- 
2.43.0


From 1e0eec654673e846febda8c4e6ee051b183a297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:32 +0000
Subject: [PATCH 19/50] fix: let the default of a switch share the block of a
 case and print empty case blocks again instead of jumping

---
 .../decompiler/graph_building/graph_minimizer.py      | 11 +++++++++++
 .../write_handlers/label_jumps/switch_start.py        |  9 ++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index ea5a04e..ac098d4 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -372,6 +372,17 @@ class SsbGraphMinimizer:
                         next_vertex = else_edge_target_vertex
                     # Else edge:
                     if next_vertex is not None:
+                        if (
+                            isinstance(next_vertex["op"], SsbLabelJump)
+                            and next_vertex["op"].root.op_code.name == OP_JUMP
+                            and next_vertex not in vs_to_delete
+                            and len(next_vertex.in_edges()) <= 1
+                        ):
+                            # The default just jumps to the block of one of the cases: They share this block.
+                            jump_target = next_vertex.out_edges()[0].target_vertex
+                            if any(e["switch_ops"] is not None and e.target_vertex == jump_target for e in v.out_edges()):
+                                vs_to_delete.add(next_vertex)
+                                next_vertex = jump_target
                         v_else_edge = next(e for e in v.out_edges() if e["switch_ops"] is None)
                         if not v_else_edge.target_vertex == next_vertex:
                             g.delete_edges(v_else_edge)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..fe914cf 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -79,9 +79,10 @@ class SwitchWriteHandler(AbstractWriteHandler):
             return exits[0].target_vertex
         else:
             list_of_switch_cases = list(iterate_switch_edges_using_edges_and_op(exits, op))
+            next_vertex = find_switch_end_label(self.start_vertex.graph, m.switch_id)
             # Build a list of all edges that will be visited multiple times, make sure to generate a label for them
             for e, _, __ in list_of_switch_cases:
-                if e in already_printed_edges:
+                if e in already_printed_edges and e.target_vertex != next_vertex:
                     edges_that_will_be_visited_multiple_times.add(e)
                 already_printed_edges.add(e)
             already_printed_edges = set()  # reuse
@@ -100,7 +101,10 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         # If this will be visited multiple times, we need a label
                         if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
                             self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
-                        if e in already_printed_edges:
+                        if e in already_printed_edges and e.target_vertex == next_vertex:
+                            # There is nothing in this block, it just ends the switch
+                            self.decompiler.write_stmnt("break;")
+                        elif e in already_printed_edges:
                             # Write the label jump instead
                             self.decompiler.write_stmnt(f"jump @switch{m.switch_id}_{e.index};")
                         else:
@@ -126,7 +130,6 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                 ):
                                     self.decompiler.write_stmnt("break;")
 
-            next_vertex = find_switch_end_label(self.start_vertex.graph, m.switch_id)
             if next_vertex:
                 # End on the same end vertex, continue after.
                 return next_vertex
-- 
2.43.0


From fb03de84e9bc78396c27a197f9e26c4a2cae2099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 20/50] fix: resolve macros after all of the macros they call

---
 .../compiler_visitor/macro_resolution_order.py        | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..88c091e 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -51,16 +51,7 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        return [self._dependency_graph.vs[i]["name"] for i in self._dependency_graph.topological_sorting()]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
-- 
2.43.0


From ded8fdee8dccc78f93f9b5d3c0d636c3575b7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 21/50] fix: look for macro cycles in linear time

---
 .../compiler/compiler_visitor/macro_resolution_order.py        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index 88c091e..8ee1783 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -92,5 +92,4 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
                 )
 
     def _has_path(self, a: Vertex | int, b: Vertex) -> bool:
-        # TODO: can be done more efficiently
-        return len(b.graph.get_all_simple_paths(a, b)) > 0
+        return b.index in b.graph.subcomponent(a, mode="out")
-- 
2.43.0


From 8d5010d86a79b494d7360921a26c498714ff1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 22/50] fix: use the performance progress list operations when
 a macro variable stands for it

---
 explorerscript/macro.py                       | 50 ++++++++++++++++---
 .../compile_handlers/operations/macro_call.py |  1 +
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 4aef2b6..5ff1fcb 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -29,7 +29,16 @@ from typing import MutableSequence
 from explorerscript.source_map import SourceMap, SourceMapBuilder
 from explorerscript.ssb_converting.compiler.utils import Counter
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpParamConstant, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_RETURN, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import (
+    SsbLabel,
+    SsbLabelJump,
+    OP_RETURN,
+    OP_JUMP,
+    OP_BRANCH_BIT,
+    OP_BRANCH_PERFORMANCE,
+    OPS_FLAG__CALC_BIT,
+    OPS_FLAG__SET_PERFORMANCE,
+)
 from explorerscript.util import f, _
 
 
@@ -92,11 +101,14 @@ class ExplorerScriptMacro:
         lbl_idx_counter: Counter,
         parameters: dict[str, SsbOpParam],
         smb: SourceMapBuilder,
+        performance_progress_list_var_name: str,
     ) -> list[SsbOperation]:
         """
         Returns new built opcodes for this macro. SsbOpConstants in the blueprints, that have the names of variables,
         are replaced with the values from the parameter dict. The keys for the dict are the names of the variables,
         all must be defined.
+        Setting or testing a bit of a variable that is replaced with performance_progress_list_var_name uses the special
+        operations for it, see docs.
         Also updates the source map with macro opcode / position mark entries.
         """
         # Check:
@@ -149,7 +161,9 @@ class ExplorerScriptMacro:
                     # Copy the label with a new proper index
                     new_labels[blueprint_op.label.id] = self._copy_blueprint_label(lbl_idx_counter, blueprint_op.label)
                     new_labels[blueprint_op.label.id].markers = blueprint_op.label.markers.copy()
-                new_root = self._build_op(op_idx_counter, blueprint_op.root, smb, parameters)
+                new_root = self._build_op(
+                    op_idx_counter, blueprint_op.root, smb, parameters, performance_progress_list_var_name
+                )
                 new_jumps = SsbLabelJump(new_root, new_labels[blueprint_op.label.id])
                 new_jumps.markers = blueprint_op.markers.copy()
                 out_ops.append(new_jumps)
@@ -157,10 +171,21 @@ class ExplorerScriptMacro:
                 # Process return: Exit the macro instead
                 replacement_blueprint_op = SsbOperation(blueprint_op.offset, SsbOpCode(-1, OP_JUMP), [])
                 out_ops.append(
-                    SsbLabelJump(self._build_op(op_idx_counter, replacement_blueprint_op, smb, parameters), end_label)
+                    SsbLabelJump(
+                        self._build_op(
+                            op_idx_counter,
+                            replacement_blueprint_op,
+                            smb,
+                            parameters,
+                            performance_progress_list_var_name,
+                        ),
+                        end_label,
+                    )
                 )
             else:
-                out_ops.append(self._build_op(op_idx_counter, blueprint_op, smb, parameters))
+                out_ops.append(
+                    self._build_op(op_idx_counter, blueprint_op, smb, parameters, performance_progress_list_var_name)
+                )
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
@@ -175,7 +200,12 @@ class ExplorerScriptMacro:
         return out_ops
 
     def _build_op(
-        self, op_idx_counter: Counter, blueprint_op: SsbOperation, smb: SourceMapBuilder, params: dict[str, SsbOpParam]
+        self,
+        op_idx_counter: Counter,
+        blueprint_op: SsbOperation,
+        smb: SourceMapBuilder,
+        params: dict[str, SsbOpParam],
+        performance_progress_list_var_name: str,
     ) -> SsbOperation:
         new_op_idx = op_idx_counter()
         # Maybe this op was also included through a macro, if so just relay the macro source map entry
@@ -205,7 +235,15 @@ class ExplorerScriptMacro:
             mapping = self.source_map.get_op_line_and_col__direct(blueprint_op.offset)
             assert mapping is not None
             smb.add_macro_opcode(new_op_idx, self.included__relative_path, self.name, mapping.line, mapping.column)
-        return SsbOperation(new_op_idx, blueprint_op.op_code, self._process_parameters(blueprint_op.params, params))
+        op_code = blueprint_op.op_code
+        op_params = self._process_parameters(blueprint_op.params, params)
+        if op_code.name in (OPS_FLAG__CALC_BIT, OP_BRANCH_BIT) and len(op_params) > 1:
+            var_name = str(op_params[0])
+            if var_name == performance_progress_list_var_name and str(blueprint_op.params[0]) != var_name:
+                if op_code.name == OPS_FLAG__CALC_BIT:
+                    return SsbOperation(new_op_idx, SsbOpCode(-1, OPS_FLAG__SET_PERFORMANCE), op_params[1:])
+                return SsbOperation(new_op_idx, SsbOpCode(-1, OP_BRANCH_PERFORMANCE), [op_params[1], 1])
+        return SsbOperation(new_op_idx, op_code, op_params)
 
     def _process_parameters(
         self, original_params: MutableSequence[SsbOpParam], macro_params: dict[str, SsbOpParam]
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
index 40cc6f3..d6926af 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
@@ -55,6 +55,7 @@ class MacroCallCompileHandler(
             self.compiler_ctx.counter_labels,
             dict(zip(macro.variables, args)),
             self.compiler_ctx.source_map_builder,
+            self.compiler_ctx.performance_progress_list_var_name,
         )
 
     def add(self, obj: ArgListCompileHandler) -> None:
-- 
2.43.0


From 82e809a47324142582f1eee0e63299502f9a9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:04 +0000
Subject: [PATCH 23/50] fix: keep the defining file of macros that are imported
 through another file

---
 explorerscript/ssb_converting/ssb_compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 84babbe..6f9c24c 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -293,7 +293,11 @@ class ExplorerScriptSsbCompiler:
     ) -> dict[str, ExplorerScriptMacro]:
         """Updates path information of all of the macros. See the field descriptions for more details"""
         for macro in macros.values():
-            macro.included__absolute_path = subfile_path
+            if macro.included__absolute_path is None:
+                macro.included__absolute_path = subfile_path
             if basefile_path is not None:
-                macro.included__relative_path = os.path.relpath(subfile_path, os.path.dirname(basefile_path))
+                # The macro may come from a file that was imported by the imported file.
+                macro.included__relative_path = os.path.relpath(
+                    macro.included__absolute_path, os.path.dirname(basefile_path)
+                )
         return macros
-- 
2.43.0


From d23b74ac0da5c986501290ea0193c8f3d3a7a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 24/50] fix: record only the position marks of the macro that
 is called in the source map

---
 .../ssb_converting/compiler/compiler_visitor/macro_visitor.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..05954f5 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -76,6 +76,9 @@ class MacroVisitor(ExplorerScriptVisitor):
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
         self._root_handler = macrodef_handler
+        # The source map of a macro must not contain the position marks of the other macros in the file.
+        self.source_map_builder = SourceMapBuilder()
+        self.compiler_ctx.source_map_builder = self.source_map_builder
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
-- 
2.43.0


From 846078495d6c8fde9800fd9e428c560dd7a430cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 25/50] fix: do not record position marks of macro arguments
 that the macro does not use

---
 .../compile_handlers/operations/arg_list.py     | 17 +++++++++++------
 .../compile_handlers/operations/macro_call.py   | 10 ++++++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/arg_list.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/arg_list.py
index aa012e2..14c6735 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/arg_list.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/arg_list.py
@@ -31,12 +31,18 @@ from explorerscript.ssb_converting.ssb_data_types import SsbOpParam, SsbOpParamP
 
 class ArgListCompileHandler(AbstractCompileHandler[ExplorerScriptParser.ArglistContext, ArgCompileHandler]):
     def collect(self) -> list[SsbOpParam]:
-        ret = []
-        for i, h in enumerate(self._added_handlers):
-            arg = h.collect()
-            ret.append(arg)
+        args = self.collect_args()
+        self.register_position_marks(args)
+        return args
+
+    def collect_args(self) -> list[SsbOpParam]:
+        """Collects the arguments, without adding the position marks in them to the source map."""
+        return [h.collect() for h in self._added_handlers]
+
+    def register_position_marks(self, args: list[SsbOpParam]) -> None:
+        """Collect position marker source map entries"""
+        for arg in args:
             if isinstance(arg, SsbOpParamPositionMarker):
-                # Collect position marker source map entries
                 self.compiler_ctx.source_map_builder.add_position_mark(
                     SourceMapPositionMark(
                         # Antlr line ids are 1-indexed.
@@ -51,7 +57,6 @@ class ArgListCompileHandler(AbstractCompileHandler[ExplorerScriptParser.ArglistC
                         arg.y_relative,
                     )
                 )
-        return ret
 
     def add(self, obj: ArgCompileHandler) -> None:
         if isinstance(obj, ArgCompileHandler):
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
index d6926af..fa720ed 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
@@ -28,6 +28,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Abs
 from explorerscript.ssb_converting.compiler.compile_handlers.operations.arg_list import ArgListCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
 from explorerscript.util import _, f
 
 
@@ -42,7 +43,7 @@ class MacroCallCompileHandler(
         name = str(self.ctx.MACRO_CALL())[1:]
         args: list[SsbOpParam] = []
         if self.arg_list_handler:
-            args = self.arg_list_handler.collect()
+            args = self.arg_list_handler.collect_args()
         if name not in self.compiler_ctx.macros.keys():
             raise SsbCompilerError(f(_("Macro {name} not found.")))
         macro = self.compiler_ctx.macros[name]
@@ -50,13 +51,18 @@ class MacroCallCompileHandler(
         self.compiler_ctx.source_map_builder.next_macro_opcode_called_in(
             None, self.ctx.start.line - 1, self.ctx.start.column
         )
-        return macro.build(
+        ops = macro.build(
             self.compiler_ctx.counter_ops,
             self.compiler_ctx.counter_labels,
             dict(zip(macro.variables, args)),
             self.compiler_ctx.source_map_builder,
             self.compiler_ctx.performance_progress_list_var_name,
         )
+        if self.arg_list_handler:
+            # Only the position marks that the macro really uses end up in the operations.
+            used_params = {id(p) for o in ops for p in (o.root if isinstance(o, SsbLabelJump) else o).params}
+            self.arg_list_handler.register_position_marks([arg for arg in args if id(arg) in used_params])
+        return ops
 
     def add(self, obj: ArgListCompileHandler) -> None:
         if isinstance(obj, ArgListCompileHandler):
-- 
2.43.0


From 17d7badd33ee9a76ad4152a309f31fdfdc8c49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 26/50] fix: name the imported file for position marks of
 nested macros

---
 explorerscript/macro.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 5ff1fcb..94e0cd9 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -189,8 +189,11 @@ class ExplorerScriptMacro:
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
-        for m in self.source_map.get_position_marks__macros():
-            smb.add_macro_position_mark(*m)
+        for rel_path, macro_name, pos_mark in self.source_map.get_position_marks__macros():
+            # If the file path is None in that entry, then it's OUR file.
+            if rel_path is None:
+                rel_path = self.included__relative_path
+            smb.add_macro_position_mark(rel_path, macro_name, pos_mark)
 
         out_ops.append(end_label)
 
-- 
2.43.0


From 03490a82f11c936a581ba09fa20cae5e01f4fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 27/50] fix: escape quotes and line breaks in the printed names
 of position marks

---
 explorerscript/ssb_converting/ssb_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index e15bb4f..c4c2cdd 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -306,7 +306,8 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        return f"Position<'{self.name}', {self.x_final}, {self.y_final}>"
+        name = escape_newlines(escape_quotes(self.name, which_quotes="'"))
+        return f"Position<'{name}', {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From 33d2e70a437be2180e1e0ba28970d9f7b2f795f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 28/50] fix: decompile routines that start with a jump from
 their first operation on

---
 .../decompiler/graph_building/graph_minimizer.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index ac098d4..77a4394 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -111,7 +111,7 @@ class SsbGraphMinimizer:
                     ins = g.incident(v, IN)
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
-                        if isinstance(iv["op"], SsbLabel):
+                        if isinstance(iv["op"], SsbLabel) and iv.index != 0:
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
@@ -724,6 +724,9 @@ class SsbGraphMinimizer:
                         e = self._reconnect(g, v_before, in_edges[0], v_after, True)
                         e["flow_level"] = e["flow_level"] + 1
                         self._update_edge_style(e)
+                    elif v.index == 0:
+                        # The routine starts with this jump.
+                        continue
                     vs_to_delete.add(v)
             g.delete_vertices(vs_to_delete)
             vs_to_delete = set()
-- 
2.43.0


From 716be75dd0ce035864bc97ccadf925e5d7ac19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 29/50] fix: map the cases of message switches to the lines of
 the cases

---
 .../compile_handlers/blocks/switches/message_switch.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
index 5889b68..68419b8 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
@@ -85,13 +85,15 @@ class MessageSwitchCompileHandler(
             value_blueprint = header_handler.collect()
             # We obviously don't want the bluprint
             value = value_blueprint.params[0]
-            case_ops.append(self._generate_operation(OP_CASE_TEXT, [value, string]))
+            case_ops.append(h._generate_operation(OP_CASE_TEXT, [value, string]))
         if self._default_handler:
             if not self._default_handler.is_message_case:
                 raise SsbCompilerError(
                     f(_("A message_ switch can only contain cases with strings (line {self.ctx.start.line})."))
                 )
-            case_ops.append(self._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()]))
+            case_ops.append(
+                self._default_handler._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()])
+            )
 
         return [switch_op] + case_ops
 
-- 
2.43.0


From 46e9fe03e12682071bb13919720265119add2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 30/50] fix: do not replace the source map entry of the
 operation in front of a continue or break_loop

---
 .../decompiler/write_handlers/label_jumps/forever_break.py   | 5 ++++-
 .../write_handlers/label_jumps/forever_continue.py           | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 0119837..b719ba4 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -46,7 +47,9 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a break and end"""
         logger.debug("Handling a break_loop; (%s)...", self.start_vertex["op"])
-        self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+        if self.start_vertex["op"].root.op_code.name == OP_JUMP:
+            # (Otherwise the vertex was only added for the loop, and the offset is the one of the op in front)
+            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
         self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 69cd80d..91dc020 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -53,7 +54,9 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             logger.warning("While decompiling, tried to generate continue; outside loop!")
             raise FallbackToJump()
         if not self._continue_is_implicit():
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            if self.start_vertex["op"].root.op_code.name == OP_JUMP:
+                # (Otherwise the vertex was only added for the loop, and the offset is the one of the op in front)
+                self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
             self.decompiler.write_stmnt("continue;  // may be redundant")
         return None
 
-- 
2.43.0


From cf621a8ce9395440431e79dcb2e95acd7bc9c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 31/50] fix: only map jumps that are printed, and map them to
 the printed jump

---
 .../write_handlers/label_jumps/jump.py           |  4 ++--
 explorerscript/ssb_converting/ssb_decompiler.py  | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index f457129..a62b169 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -48,8 +48,8 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
-        # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
-        self.decompiler.source_map_add_opcode(op.offset)
+        # Should a jump be written next, then it is written for this op.
+        self.decompiler.pending_jump_offset = op.offset
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
         exits = self.start_vertex.out_edges()
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 7cab1be..5e53e85 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -77,6 +77,8 @@ class ExplorerScriptSsbDecompiler:
     dungeon_mode_constants: DungeonModeConstants
     # Since forever blocks break_loops do NOT have to be on the exact next level, we use a stack system instead!
     forever_start_handler_stack: list[ForeverWriteHandler] = []
+    # Offset of the jump operation that was processed last, while nothing has been written for it.
+    pending_jump_offset: int | None
 
     def __init__(
         self,
@@ -106,6 +108,7 @@ class ExplorerScriptSsbDecompiler:
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
         self.forever_start_handler_stack = []
+        self.pending_jump_offset = None
 
     def convert(self) -> tuple[str, SourceMap]:
         logger.debug("Decompiling ExplorerScript...")
@@ -114,6 +117,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_already_printed = []
         self.vertices_already_written = set()
         self._line_number = 1
+        self.pending_jump_offset = None
         self.smb = SourceMapBuilder()
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
@@ -209,6 +213,7 @@ class ExplorerScriptSsbDecompiler:
         """Write a simple single line statement"""
         if line:
             self.write_line()
+        self.pending_jump_offset = None
         self._line_number += stmnt.count("\n")
         self._output += stmnt
 
@@ -230,10 +235,10 @@ class ExplorerScriptSsbDecompiler:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -242,7 +247,12 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
+
+    def _write_jump(self, label_id: int) -> None:
+        if self.pending_jump_offset is not None:
+            self.source_map_add_opcode(self.pending_jump_offset)
+        self.write_stmnt(f"jump @label_{label_id};")
 
     def source_map_add_opcode(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode."""
-- 
2.43.0


From c1b42877f6d40aa90e1a5d2d865c3e70504ba0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 32/50] fix: map the condition of elseif to its line

---
 .../write_handlers/label_jumps/if_start.py         |  2 +-
 explorerscript/ssb_converting/ssb_decompiler.py    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..2654087 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -238,7 +238,7 @@ class IfWriteHandler(AbstractWriteHandler):
 
         exits = v.out_edges()
 
-        self.decompiler.source_map_add_opcode(op.offset)
+        self.decompiler.source_map_add_opcode(op.offset, starts_on_new_line=include_newline_in_header)
         opt_space = " " if not include_newline_in_header else ""
         not_str = "" if not m.is_not else " not"
         self.decompiler.write_stmnt(
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 5e53e85..e16f67a 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -254,12 +254,16 @@ class ExplorerScriptSsbDecompiler:
             self.source_map_add_opcode(self.pending_jump_offset)
         self.write_stmnt(f"jump @label_{label_id};")
 
-    def source_map_add_opcode(self, op_offset: int) -> None:
-        """Has to be called BEFORE writing the opcode."""
+    def source_map_add_opcode(self, op_offset: int, *, starts_on_new_line: bool = True) -> None:
+        """
+        Has to be called BEFORE writing the opcode. If starts_on_new_line is False, the opcode is written behind
+        the closing brace and a space.
+        """
         assert self.smb is not None
-        # TODO: Assumes that all statements start in a new line after indent.
-        #       Might need this more flexible.
-        self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        line, column = self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT
+        if not starts_on_new_line:
+            line, column = line - 1, column + len("} ")
+        self.smb.add_opcode(op_offset, line, column)
 
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
-- 
2.43.0


From 020fb114076b50283dd9df210510a7c91a742b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 33/50] fix: compile CLI: write the target id of routines for
 target -1

---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..f8071f2 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -103,19 +103,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops),
             }
         else:
-- 
2.43.0


From 4d582551da128b6523b78e20fe1d09d1c30ede51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 34/50] fix: compile CLI: jump parameters and source map
 addresses are op positions

---
 explorerscript/cli/compile.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index f8071f2..ba9d8aa 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -26,6 +26,7 @@ import argparse
 import json
 import os
 import sys
+from itertools import chain
 from typing import TypedDict
 
 if sys.version_info >= (3, 11):
@@ -45,6 +46,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,12 +67,20 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_op_positions(routine_ops: list[list[SsbOperation]]) -> dict[int, int]:
+    """Maps the offset of each op to its position (starting at 1), counted across all routines."""
+    return {op.offset: position for position, op in enumerate(chain.from_iterable(routine_ops), 1)}
+
+
+def build_ops(ops: list[SsbOperation], op_positions: dict[int, int]) -> list[OpDict]:
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        for param in op.params:
-            if isinstance(param, int):
+        jump_param = len(op.params) - 1 if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET else None
+        for i, param in enumerate(op.params):
+            if i == jump_param:
+                out_op["params"].append(op_positions[param])  # type: ignore
+            elif isinstance(param, int):
                 out_op["params"].append(param)
             elif isinstance(param, SsbOpParamFixedPoint):
                 out_op["params"].append({"type": "FIXED_POINT", "value": param.value})
@@ -94,29 +104,30 @@ def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
     routines: list[RoutineDict] = []
+    op_positions = build_op_positions(routine_ops)
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
@@ -183,6 +194,7 @@ if __name__ == "__main__":
     }
 
     if args.source_map is not None:
+        compiler.source_map.rewrite_offsets(build_op_positions(compiler.routine_ops))
         with open_utf8(args.source_map, "w") as f:
             f.write(compiler.source_map.serialize())
 
-- 
2.43.0


From 1faca9c944d02ccb54f75f8deedbc539907be3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 35/50] fix: compile CLI: --lookup can be given multiple times

---
 explorerscript/cli/compile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index ba9d8aa..cd4bbd1 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -145,7 +145,7 @@ if __name__ == "__main__":
         required=True,
         help="The JSON file containing the settings for the compiler.",
     )
-    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", metavar="PATH", help="Lookup paths.")
+    parser.add_argument("--lookup", dest="lookup_paths", action="extend", nargs="*", metavar="PATH", help="Lookup paths.")
     parser.add_argument(
         "--source-map",
         dest="source_map",
-- 
2.43.0


From 3ce8eecd887079d6e0341307d9d2ea8654822ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 36/50] fix: decompile CLI: register coroutines with the id of
 their routine

---
 explorerscript/cli/decompile.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..e91be63 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -135,7 +135,7 @@ def read_routines(
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
-    for r in routines:
+    for r_id, r in enumerate(routines):
         if "ops" not in r:
             raise ValueError("Ops for a routine not set.")
         if "type" not in r:
@@ -143,11 +143,10 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(r_id, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "GENERIC":
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "ACTOR":
@@ -159,7 +158,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "OBJECT":
@@ -171,7 +169,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "PERFORMER":
@@ -183,7 +180,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         else:
-- 
2.43.0


From f542884baf940fdcbdbea696640da797e0153e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 37/50] fix: decompile CLI: accept numbers as coordinates of
 position marks

---
 explorerscript/cli/decompile.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index e91be63..bebbcee 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -81,13 +81,15 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
-    arg_str_arr = arg_str.split(".")
+def parse_pos_mark_arg(arg: str | int | float) -> tuple[int, int]:
+    if isinstance(arg, int):
+        return arg, 0
+    arg_str_arr = str(arg).split(".")
     if len(arg_str_arr) < 2:
-        return exps_int(arg_str), 0
-    if arg_str_arr[1] != "5" or len(arg_str_arr) > 2:
+        return exps_int(arg_str_arr[0]), 0
+    if arg_str_arr[1] not in ("0", "5") or len(arg_str_arr) > 2:
         raise ValueError("Invalid position mark")
-    return exps_int(arg_str_arr[0]), 2
+    return exps_int(arg_str_arr[0]), 2 if arg_str_arr[1] == "5" else 0
 
 
 def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
-- 
2.43.0


From ad5e36e9fcc0b37b63fe8644469ef1e3b047db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 38/50] fix: decompile CLI: count op positions from 1 for each
 document

---
 explorerscript/cli/decompile.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index bebbcee..1aabcd0 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,9 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
-
 class OpDict(TypedDict):
     params: list[ParamDict]
     opcode: str
@@ -92,7 +89,7 @@ def parse_pos_mark_arg(arg: str | int | float) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2 if arg_str_arr[1] == "5" else 0
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -134,6 +131,7 @@ def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
+    counter = Counter()
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
@@ -147,10 +145,10 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(r_id, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -161,7 +159,7 @@ def read_routines(
             else:
                 linked_to_name = str(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -172,7 +170,7 @@ def read_routines(
             else:
                 linked_to_name = str(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -183,7 +181,7 @@ def read_routines(
             else:
                 linked_to_name = str(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0


From b4d2d1b15597ea1852691df3cd34e5fe20113c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 39/50] fix: reject branch operations with a wrong number of
 arguments as condition

---
 .../compiler/compile_handlers/blocks/ifs/if_header.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py
index 7191d29..85247ec 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/ifs/if_header.py
@@ -76,6 +76,11 @@ class IfHeaderCompileHandler(AbstractCompileHandler[ExplorerScriptParser.If_head
                     raise SsbCompilerError(
                         f(_("Invalid operation for if condition: {name} (line {self.ctx.start.line})"))
                     )
+                if len(params) != OPS_BRANCH[name]:
+                    # The target of the branch has to be at the index all users of the operation expect it at.
+                    raise SsbCompilerError(
+                        f(_("Wrong number of arguments for operation {name} (line {self.ctx.start.line})."))
+                    )
                 jmp = SsbLabelJumpBlueprint(self.compiler_ctx, self.ctx, name, params)
                 jmp.set_jump_is_positive(is_positive)
                 return jmp
-- 
2.43.0


From 001a74950447754a9affe39994786ec85fbe6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 40/50] fix: decompiling leaves the given operations as they
 are, so that it can be repeated

---
 explorerscript/ssb_converting/ssb_decompiler.py    | 14 ++++++--------
 .../ssb_script/ssb_converting/ssb_decompiler.py    |  7 ++++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index e16f67a..a2b1d40 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -120,21 +120,20 @@ class ExplorerScriptSsbDecompiler:
         self.pending_jump_offset = None
         self.smb = SourceMapBuilder()
 
-        raw_routine_backup_ops = deepcopy(self._routine_ops)
-
         # Step 1: Build labels
-        resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        # This works on a copy: Writing changes the operations and their parameters.
+        resolver = OpsLabelJumpToResolver(deepcopy(self._routine_ops))
+        routine_ops = list(resolver)
         has_any_calls = any(
             any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
+            for rtn in routine_ops
         )
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
             # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
@@ -164,14 +163,13 @@ class ExplorerScriptSsbDecompiler:
 
             # Step 4:
             # Not every control flow can be restored, make sure that what we built still does what the script did.
-            assert self._output_behaves_like(raw_routine_backup_ops)
+            assert self._output_behaves_like(self._routine_ops)
 
             return self._output, self.smb.build()
 
         except Exception:
             # If something failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
diff --git a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
index 20fc791..993193f 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import logging
 import warnings
+from copy import deepcopy
 from typing import MutableSequence, Sequence
 
 from explorerscript.source_map import SourceMapBuilder, SourceMap, SourceMapPositionMark
@@ -81,10 +82,10 @@ class SsbScriptSsbDecompiler:
         self._source_map_builder = SourceMapBuilder()
 
         # Step 1: Build labels
-        resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        # This works on a copy: Writing changes the parameters.
+        resolver = OpsLabelJumpToResolver(deepcopy(self._routine_ops))
 
-        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, self._routine_ops)):
+        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, resolver)):
             logger.debug(
                 "Decompiling (%d, %s)...",
                 r_id,
-- 
2.43.0


From 6090bd70d791785c78402f783fc7714d3b4f4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 41/50] fix: keep leading and trailing blank lines when
 highlighting

---
 explorerscript/pygments/expslexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/pygments/expslexer.py b/explorerscript/pygments/expslexer.py
index 1cc4061..7a51ba9 100644
--- a/explorerscript/pygments/expslexer.py
+++ b/explorerscript/pygments/expslexer.py
@@ -23,6 +23,7 @@
 from __future__ import annotations
 
 import re
+from typing import Any
 
 from pygments.lexer import RegexLexer, include, words
 from pygments.token import Comment, Name, String, Text, Number
@@ -90,6 +91,11 @@ class ExplorerScriptLexer(RegexLexer):
 
     flags = re.MULTILINE | re.DOTALL
 
+    def __init__(self, **options: Any):
+        # Blank lines at the start and the end are part of the source.
+        options.setdefault("stripnl", False)
+        super().__init__(**options)
+
     tokens = {
         "comments": [
             (r"/\*.*?\*/", Comment.Multiline),
-- 
2.43.0


From 0beed1cece4166875c3c7386153e5f5b54dd77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 42/50] fix: keep trailing empty lines and unusual line
 separators of multi line strings

---
 explorerscript/ssb_converting/compiler/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 768f0ab..76486d9 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -200,13 +200,12 @@ def singleline_string_literal(string: str) -> str:
 
 def multiline_string_literal(string: str) -> str:
     string = str(string)[3:-3]
-    all_lines = string.splitlines()
+    # Other characters that str.splitlines treats as line boundaries are part of the text.
+    all_lines = string.replace("\r\n", "\n").split("\n")
     lines: list[str] = []
     last_line = ""
 
-    if len(all_lines) == 0:
-        first_line = ""
-    elif len(all_lines) == 1:
+    if len(all_lines) == 1:
         first_line = all_lines[0]
     elif len(all_lines) == 2:
         first_line = all_lines[0]
-- 
2.43.0


From 4e614048e70d59af1742d2764835a1ef6e73d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 43/50] fix: print strings in a form that is read back as the
 same string

---
 .../ssb_converting/ssb_data_types.py          | 56 ++++++++++++++++---
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index c4c2cdd..462d36d 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -24,6 +24,7 @@
 #
 from __future__ import annotations
 
+import re
 import string
 from enum import Enum
 from typing import Union, MutableSequence
@@ -49,15 +50,52 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
         preferred_multiline_quote = '"""'
         secondary_multiline_quote = "'''"
 
-    if "\n" not in string:
-        # Single line string
-        return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
-    if preferred_multiline_quote in string:
-        if secondary_multiline_quote in string:
-            # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
-            return f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
-        return _repr_multiline_string(string, indent, secondary_multiline_quote)
-    return _repr_multiline_string(string, indent, preferred_multiline_quote)
+    single_line = f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
+    fits_single_line = _fits_single_line_string(string)
+
+    if "\n" not in string and fits_single_line:
+        return single_line
+
+    delimiters = [d for d in (preferred_multiline_quote, secondary_multiline_quote) if d not in string]
+    if delimiters and "\n" in string and _fits_multiline_string(string):
+        return _repr_multiline_string(string, indent, delimiters[0])
+    if fits_single_line:
+        return single_line
+
+    # The content of multi line strings is not unescaped and the first line of them is kept as it is.
+    for delimiter in delimiters:
+        if _fits_inline_multiline_string(string, delimiter):
+            return f"{delimiter}{string}{delimiter}"
+    if delimiters and _fits_multiline_string(string):
+        return _repr_multiline_string(string, indent, delimiters[0])
+
+    # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
+    return single_line
+
+
+# Backslashes are kept as they are in single line strings, unless they are followed by one of these characters.
+_BACKSLASH_STARTING_ESCAPE = re.compile(r"""\\(["'n]|\Z)""")
+
+
+def _fits_single_line_string(string: str) -> bool:
+    """Whether a single line string literal can represent the string."""
+    return "\r" not in string and "\f" not in string and _BACKSLASH_STARTING_ESCAPE.search(string) is None
+
+
+def _fits_multiline_string(string: str) -> bool:
+    """Whether the lines of the string survive the removal of the indentation of multi line string literals."""
+    lines = string.split("\n")
+    return any(not line.startswith(" ") for line in lines) and not any(line.endswith("\r") for line in lines)
+
+
+def _fits_inline_multiline_string(string: str, delimiter: str) -> bool:
+    """Whether a multi line string literal that starts and ends with the text itself can represent the string."""
+    first_line, *lines = string.split("\n")
+    if string.endswith(delimiter[0]) or "\r\n" in string:
+        return False
+    return len(lines) == 0 or (
+        first_line != "" and lines[-1].strip(" ") != "" and any(not line.startswith(" ") for line in lines)
+    )
 
 
 def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
-- 
2.43.0


From 433b899f7558fb289c810e062f21daffe44b144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 44/50] fix: reject routines in imported files

---
 explorerscript/ssb_converting/ssb_compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 6f9c24c..7e50ef6 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -165,7 +165,6 @@ class ExplorerScriptSsbCompiler:
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -215,7 +214,7 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
+            if HasRoutinesVisitor().visit(tree):
                 # noinspection PyUnusedLocal
                 fn = os.path.basename(file_name)  # noqa
                 raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
-- 
2.43.0


From 2902236e81ff48a7eb12b331257e362fb9b8a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 45/50] fix: reject imports that are not files

---
 explorerscript/ssb_converting/ssb_compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 7e50ef6..b3951a2 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -258,7 +258,7 @@ class ExplorerScriptSsbCompiler:
             if import_file.startswith(".") or import_file.startswith("/"):
                 # Relative or absolute import
                 abs_path = os.path.realpath(str(PurePath(PurePosixPath(dir_name).joinpath(PurePosixPath(import_file)))))
-                if not os.path.exists(abs_path):
+                if not os.path.isfile(abs_path):
                     raise SsbCompilerError(f(_("The file to import ('{import_file}') was not found.")))
             else:
                 # Relative to one of the lookup paths
@@ -277,7 +277,7 @@ class ExplorerScriptSsbCompiler:
                     abs_path_c = os.path.realpath(
                         str(PurePath(dir_name).joinpath(PurePosixPath(lp).joinpath(import_file)))
                     )
-                    if os.path.exists(abs_path_c):
+                    if os.path.isfile(abs_path_c):
                         abs_path = abs_path_c
                         break
                 if abs_path is None:
-- 
2.43.0


From ef99bb12f479adc1ea3bcd8251f5eba2013e3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 46/50] fix: raise an SsbCompilerError when an imported file
 can not be read

---
 explorerscript/ssb_converting/ssb_compiler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index b3951a2..6180683 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -188,10 +188,14 @@ class ExplorerScriptSsbCompiler:
                 self.lookup_paths,
                 recursion_check=self.recursion_check + [file_name],
             )
-            with open_utf8(subfile_path, "r") as file:
-                subfile_compiler.compile(
-                    file.read(), subfile_path, macros_only=True, original_base_file=original_base_file
-                )
+            try:
+                with open_utf8(subfile_path, "r") as file:
+                    subfile_src = file.read()
+            except OSError as e:
+                raise SsbCompilerError(f(_("The file to import ('{subfile_path}') could not be read."))) from e
+            subfile_compiler.compile(
+                subfile_src, subfile_path, macros_only=True, original_base_file=original_base_file
+            )
             self.macros.update(self._macros_add_filenames(subfile_compiler.macros, original_base_file, subfile_path))
 
         # Sort the list of macros by how they are used
-- 
2.43.0


From 7ba413d3f4783fd60f23a686980baba3c441e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 47/50] fix: reject jumps to undefined labels in unused macros

---
 .../compiler/compiler_visitor/macro_visitor.py      | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 05954f5..33457b4 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -33,7 +33,9 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Any
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.util import _, f
 
 
 class MacroVisitor(ExplorerScriptVisitor):
@@ -82,11 +84,20 @@ class MacroVisitor(ExplorerScriptVisitor):
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
+        self._check_labels(blueprints)
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
         return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
 
+    def _check_labels(self, blueprints: list[SsbOperation]) -> None:
+        """Labels are local to a macro, so all jumps must be to labels in it. This also checks macros that are not used."""
+        label_ids = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in label_ids:
+                label_id = op.label.original_name  # noqa
+                raise SsbCompilerError(f(_("Label {label_id} does not exist, but a jump to it does (remove it).")))
+
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
         raise SsbCompilerError(_("Macros can not alias."))
 
-- 
2.43.0


From 563cb486152fbd4b874db4d6cf17f1ab0abe03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 48/50] fix: raise an SsbCompilerError when the source is
 nested too deeply

---
 explorerscript/ssb_converting/ssb_compiler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 6180683..9ab8283 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -133,6 +133,14 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except RecursionError as e:
+            raise SsbCompilerError(_("The source code is nested too deeply.")) from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
-- 
2.43.0


From 7ac3179a7739236c7140017f6647304d9943d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 49/50] fix: do not raise the exception the caller is handling
 instead of the compilation error

compile() raises the oldest exception in the context chain of the error. When it
is called while an exception is being handled, that chain goes on to the
exception of the caller.
---
 explorerscript/ssb_converting/ssb_compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 9ab8283..3a461cb 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import logging
 import os
+import sys
 from pathlib import PurePosixPath, PurePath
 
 from explorerscript.error import SsbCompilerError
@@ -233,6 +234,7 @@ class ExplorerScriptSsbCompiler:
             return self
 
         # Start Compiling
+        handled_by_caller = sys.exc_info()[1]
         try:
             try:
                 logger.debug("<%d> Compiling routines...", id(self))
@@ -241,7 +243,7 @@ class ExplorerScriptSsbCompiler:
             except Exception as ex:
                 # due to the stack nature of the decompile visitor, we get many stack exceptions after raising
                 # the first. Raise the last exception in the context chain.
-                while ex.__context__ is not None:
+                while ex.__context__ is not None and ex.__context__ is not handled_by_caller:
                     ex = ex.__context__  # type: ignore
                 raise ex
         except AssertionError as e:
-- 
2.43.0


From 4bec5626aaf05d816e38a68512c7bfe38b0085f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 50/50] fix: decompile branch operations with other values than
 0 and 1 as operation conditions

---
 .../write_handlers/label_jumps/if_start.py    | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 2654087..33cbec5 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -138,19 +138,19 @@ class IfWriteHandler(AbstractWriteHandler):
         if op.op_code.name == "BranchBit":
             return f"{op.params[0]}[{op.params[1]}]"
         if op.op_code.name == "BranchDebug":
-            if op.params[0] > 0:  # type: ignore
-                return "debug"
-            else:
-                return "not debug"
+            if op.params[0] not in (0, 1):
+                return self._operation_header_for(op)
+            return "debug" if op.params[0] == 1 else "not debug"
         if op.op_code.name == "BranchEdit":
-            if op.params[0] > 0:  # type: ignore
-                return "edit"
-            else:
-                return "not edit"
+            if op.params[0] not in (0, 1):
+                return self._operation_header_for(op)
+            return "edit" if op.params[0] == 1 else "not edit"
         if op.op_code.name == "BranchExecuteSub":
             return f'BranchExecuteSub({", ".join([str(x) for x in op.params])})'
         if op.op_code.name == "BranchPerformance":
-            n = "not " if op.params[1] < 1 else ""  # type: ignore
+            if op.params[1] not in (0, 1):
+                return self._operation_header_for(op)
+            n = "not " if op.params[1] == 0 else ""
             return f"{n}{self.decompiler.performance_progress_list_var_name}[{op.params[0]}]"
         if op.op_code.name == "BranchScenarioNow":
             return f"scn({op.params[0]}) == [{op.params[1]}, {op.params[2]}]"
@@ -169,12 +169,14 @@ class IfWriteHandler(AbstractWriteHandler):
         if op.op_code.name == "BranchVariable":
             return f"{op.params[0]} {SsbOperator(op.params[1]).notation} value({op.params[2]})"  # type: ignore
         if op.op_code.name == "BranchVariation":
-            if op.params[0] > 0:  # type: ignore
-                return "variation"
-            else:
-                return "not variation"
+            if op.params[0] not in (0, 1):
+                return self._operation_header_for(op)
+            return "variation" if op.params[0] == 1 else "not variation"
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
+    def _operation_header_for(self, op: SsbOperation) -> str:
+        return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
+
     def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
         """Starting from the in_edge try to build as many elseif constructs as possible."""
         op: SsbOperation = in_edge.target_vertex["op"]
-- 
2.43.0

