From 7e6187b22a39e5b6ca48e02168ae4ce0818cebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:17 +0000
Subject: [PATCH 01/43] fix: assign labels on a routine's last op to that
 routine

A jump to the last op of an earlier routine created its label in a later
routine, so the decompiler raised KeyError while building the graph.
---
 .../ssb_converting/decompiler/label_jump_to_resolver.py         | 2 +-
 explorerscript/ssb_converting/ssb_special_ops.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
index 732e081..7dc353d 100644
--- a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
+++ b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
@@ -75,7 +75,7 @@ class OpsLabelJumpToResolver:
 
     def _build_end_offsets(self, routines: Sequence[Sequence[SsbOperation]]) -> list[int]:
         offsets = []
-        prev_offset = 0
+        prev_offset = -1
         for routine in routines:
             if len(routine) > 0:
                 last_op = routine[-1]
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..3e0fedf 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -514,7 +514,7 @@ def process_op_for_jump(
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
             # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset < routine_end_offsets[routine_id - 1]:
+            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
                 routine_id -= 1
             while old_offset > routine_end_offsets[routine_id]:
                 routine_id += 1
-- 
2.43.0


From bde33841d9d9a0b694fc33b7c65838841e7b2870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:17 +0000
Subject: [PATCH 02/43] fix: decompile routines that only jump into another
 routine

The routine's block has no starting vertex in that case; indexing it raised
TypeError.
---
 .../decompiler/write_handlers/foreign_label.py           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/foreign_label.py b/explorerscript/ssb_converting/decompiler/write_handlers/foreign_label.py
index a658137..8f44c6f 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/foreign_label.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/foreign_label.py
@@ -57,7 +57,12 @@ class ForeignLabelWriteHandler(AbstractWriteHandler):
         exits = self.start_vertex.out_edges()
         assert len(exits) == 0
         # See note in LabelWriteHandler.
-        previous_vertex_op = self.vertex_that_started_block["op"] if self.is_first_vertex_of_block else None  # type: ignore
+        # A routine may consist of nothing but the jump, then no vertex started this block.
+        previous_vertex_op = (
+            self.vertex_that_started_block["op"]
+            if self.is_first_vertex_of_block and self.vertex_that_started_block is not None
+            else None
+        )
         # We definitely need to print that
-        self.decompiler.write_label_jump(op.label.id, previous_vertex_op)
+        self.decompiler.write_label_jump(op.label.id, previous_vertex_op)  # type: ignore
         return None
-- 
2.43.0


From 29bdb99059d0ab0acb022d78359cafeb74f90ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 03/43] fix: fall back to SsbScript on any error while
 structuring

The structuring passes and writers also report scripts they can not handle with
ValueError and others, which bypassed the fallback.
---
 explorerscript/ssb_converting/ssb_decompiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..f1ec597 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -152,9 +152,9 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
-            # has no ending opcode at the end of routines. Try to fallback to SsbScript.
+        except Exception:
+            # If an assertion or anything else failed, then either there is a bug in the decompiler or the script is
+            # not valid, ie. has no ending opcode at the end of routines. Try to fallback to SsbScript.
             self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
             prefix = "//?: is-ssb-script: true\n"
-- 
2.43.0


From f4077a23515e96211ae09f5695a7ed486b38e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 04/43] fix: stop decompiling blocks that are nested endlessly

For some loops across blocks or routines the writers nested a block in itself
until memory or the recursion limit of 10000 was used up. Detect it, so that
the fallback to SsbScript is taken.
---
 .../ssb_converting/decompiler/write_handlers/block.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index cfea333..bece634 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -96,6 +96,10 @@ class BlockWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         from explorerscript.ssb_converting.decompiler.write_handlers.simple_op import SimpleOperationWriteHandler
 
+        # Each level of nesting (two for switches) is started by another vertex. If there are more levels than that,
+        # the blocks contain each other and writing them would never end.
+        assert self.decompiler.indent <= 2 * (len(self.start_vertex.graph.vs) + 1), "The blocks are nested endlessly."
+
         previous_vertex = None
         is_first_vertex = True
         while self._next_vertex is not None:
-- 
2.43.0


From f6e1a5f046ead6d2f31e2c63706204592fe5265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 05/43] fix: stop decompiling a block that comes back to itself

A loop whose label was dropped because it is only reached by its own jump was
written over and over again. Detect it, so that the fallback to SsbScript is
taken.
---
 .../ssb_converting/decompiler/write_handlers/block.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index bece634..44d48dd 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -102,7 +102,11 @@ class BlockWriteHandler(AbstractWriteHandler):
 
         previous_vertex = None
         is_first_vertex = True
+        written_vertices = 0
         while self._next_vertex is not None:
+            # The same applies to a block that comes back to its own vertices without ever reaching a printed label.
+            written_vertices += 1
+            assert written_vertices <= 2 * (len(self.start_vertex.graph.vs) + 1), "The block never ends."
             # Write
             self.last_handler_in_block = WriteHandlerManager.get_for(
                 self._next_vertex, self.decompiler, self, self.vertex_that_started_block, is_first_vertex
-- 
2.43.0


From d86c28d0aa8620b05666db1191d1c190f08c664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 06/43] fix: do not write a return into with and message switch
 blocks

If such a block was last in a branch, a return was inserted into it, which is no
valid ExplorerScript. Fall back to SsbScript instead.
---
 .../ssb_converting/decompiler/write_handlers/block.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index 44d48dd..de6537e 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -145,7 +145,9 @@ class BlockWriteHandler(AbstractWriteHandler):
                 and not isinstance(previous_vertex["op"], SsbLabel)
                 and not isinstance(previous_vertex["op"], SsbForeignLabel)
             ):
-                # All branches must end with something that ends their control flow
+                # All branches must end with something that ends their control flow, but there's no place for such
+                # a statement in with and message switch blocks.
+                assert not self._disallow_nested, "Can not end the control flow inside this block."
                 logger.warning(
                     f"Had to insert a {OP_DUMMY_END} after {previous_vertex['op']}, because it was last in branch."
                 )
-- 
2.43.0


From b952abe5b92ab4bde191c5e002d73221e7c0aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 07/43] fix: give every macro its own source map

Calling a macro of the same file from another macro appended to the list of
macro position marks while iterating over it, if any macro used a position
mark; compilation never ended.
---
 .../ssb_converting/compiler/compiler_visitor/macro_visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..d8aa682 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -75,6 +75,10 @@ class MacroVisitor(ExplorerScriptVisitor):
 
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
+        # Every macro has its own source map. If they shared one, then calling a macro would add to the list of
+        # position marks that is being read.
+        self.source_map_builder = SourceMapBuilder()
+        self.compiler_ctx.source_map_builder = self.source_map_builder
         self._root_handler = macrodef_handler
         self.visitChildren(macrodef_handler.ctx)
 
-- 
2.43.0


From 8d9b806f40e46f5752ec1535234e6ffbfe41ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 08/43] fix: resolve macros in topological order

A macro using two macros of different depth was compiled before one of them,
depending on the order of the definitions ('Macro x not found').
---
 .../compiler_visitor/macro_resolution_order.py       | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..9464af9 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -51,16 +51,8 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        # Edges point from macros to the macros using them, so in topological order the used macros come first.
+        return [self._dependency_graph.vs[v]["name"] for v in self._dependency_graph.topological_sorting(mode="out")]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
-- 
2.43.0


From d2e3992d7c53bef4e70438e39875bf571f47d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 09/43] fix: keep the op behind a label that is jumped to once
 when stripping the last label

It was removed if the op before the label ended the control flow, then the
label became the last one itself and the branch to it was replaced by Return.
---
 explorerscript/ssb_converting/compiler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..1906bc8 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -284,7 +284,7 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
                     else:
                         if isinstance(op, SsbLabel):
                             # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
+                            if jump_counts.get(op.id, 0) > 0:
                                 op_before_ends_control_flow = False
                         else:
                             op_before_ends_control_flow = does_op_end_control_flow(
-- 
2.43.0


From b31b9c19b81b470e6e533a3279c03abcbb01a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 10/43] fix: compile routines that consist only of labels

---
 explorerscript/ssb_converting/compiler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 1906bc8..e1095bd 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -266,7 +266,7 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
                 if isinstance(op, SsbLabelJump) and op.label is not None:
                     jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
 
-            while isinstance(routine[-1], SsbLabel):
+            while len(routine) > 0 and isinstance(routine[-1], SsbLabel):
                 indices_to_remove = set()
                 label = routine[-1]
                 # Remove the label
-- 
2.43.0


From 4a3fb03f04851f0ecedfc234f48b5863536ae8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 11/43] fix: give branches to a label at the end of a routine
 an op to go to

They were replaced by an unconditional Return.
---
 .../compiler/compile_handlers/abstract.py        | 16 +++++++++++++++-
 .../compile_handlers/functions/coro_def.py       |  2 +-
 .../compile_handlers/functions/for_target_def.py |  2 +-
 .../compile_handlers/functions/simple_def.py     |  2 +-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..34f8f17 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -22,6 +22,7 @@
 #
 from __future__ import annotations
 
+import itertools
 import sys
 from abc import ABC, abstractmethod
 from typing import Any, MutableSequence, TypeVar, Generic, TYPE_CHECKING
@@ -35,7 +36,7 @@ from antlr4 import ParserRuleContext
 
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP, OP_DUMMY_END
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
@@ -261,6 +262,19 @@ class AbstractFuncdefCompileHandler(AbstractCompileHandler[CTX, AbstractCompileH
             ops += ops_of_h
         return ops
 
+    def collect_routine_ops(self) -> list[SsbOperation]:
+        """
+        Collects all operations in a routine. Labels at the end of a routine are not written. Jumps to them can be
+        replaced by the end of the routine, but everything else that branches to them needs an op to go to.
+        """
+        ops = self.collect_ops()
+        last_labels = list(itertools.takewhile(lambda o: isinstance(o, SsbLabel), reversed(ops)))
+        if any(
+            isinstance(op, SsbLabelJump) and op.root.op_code.name != OP_JUMP and op.label in last_labels for op in ops
+        ):
+            ops.append(self._generate_operation(OP_DUMMY_END, []))
+        return ops
+
     @abstractmethod
     def get_new_routine_id(self, old_id: int) -> int:
         pass
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
index 60a6641..680b405 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
@@ -32,7 +32,7 @@ from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRout
 class CoroDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Coro_defContext]):
     def collect(self) -> Any:
         """Collects name of the coroutine, routine info and operations."""
-        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_ops()
+        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return old_id + 1
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index f8cf6c0..42a5366 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -67,7 +67,7 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         else:
             raise SsbCompilerError("A targeted routine must be 'for' an 'actor', 'object' or 'performer'.")
 
-        return routine_info, self.collect_ops()
+        return routine_info, self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
index adc1168..a0d1ac5 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
@@ -33,7 +33,7 @@ from explorerscript.util import exps_int
 class SimpleDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Simple_defContext]):
     def collect(self) -> Any:
         """Collects routine info and operations."""
-        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_ops()
+        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
-- 
2.43.0


From f5afd553a5bc6a0d26b254544d1facf163a25863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 12/43] fix: keep jumps over a branch or call that goes to the
 label right after it

---
 explorerscript/ssb_converting/compiler/label_finalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..35b8680 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -75,7 +75,7 @@ class LabelFinalizer:
                     # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
                     have_match = False
-                    if skip_redundant_label_jumps:
+                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From ed5bf3a3d88e32e45146b8333b2ce06209ef15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 13/43] fix: report import files that can not be read as
 compiler errors

---
 explorerscript/ssb_converting/ssb_compiler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..6230af0 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -189,10 +189,14 @@ class ExplorerScriptSsbCompiler:
                 self.lookup_paths,
                 recursion_check=self.recursion_check + [file_name],
             )
-            with open_utf8(subfile_path, "r") as file:
-                subfile_compiler.compile(
-                    file.read(), subfile_path, macros_only=True, original_base_file=original_base_file
-                )
+            try:
+                with open_utf8(subfile_path, "r") as file:
+                    subfile_src = file.read()
+            except OSError as e:
+                raise SsbCompilerError(f(_("The file to import ('{subfile_path}') could not be read: {e}"))) from e
+            subfile_compiler.compile(
+                subfile_src, subfile_path, macros_only=True, original_base_file=original_base_file
+            )
             self.macros.update(self._macros_add_filenames(subfile_compiler.macros, original_base_file, subfile_path))
 
         # Sort the list of macros by how they are used
-- 
2.43.0


From e20e6cabd65ae3cf70850abb019f443dec35944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 14/43] fix: refuse imported files that contain routines

---
 explorerscript/ssb_converting/ssb_compiler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 6230af0..7bd5126 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -25,6 +25,7 @@ from __future__ import annotations
 import logging
 import os
 from pathlib import PurePosixPath, PurePath
+from typing import NoReturn
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.explorerscript_reader import ExplorerScriptReader
@@ -157,6 +158,8 @@ class ExplorerScriptSsbCompiler:
                 # Parse as SsbScript instead
                 subcompiler = SsbScriptSsbCompiler()
                 subcompiler.compile(explorerscript_src)
+                if macros_only and subcompiler.routine_infos:
+                    self._raise_macros_only(file_name)
                 self.routine_infos = subcompiler.routine_infos
                 self.routine_ops = subcompiler.routine_ops
                 self.named_coroutines = subcompiler.named_coroutines
@@ -165,7 +168,6 @@ class ExplorerScriptSsbCompiler:
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -219,10 +221,8 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
-                # noinspection PyUnusedLocal
-                fn = os.path.basename(file_name)  # noqa
-                raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
+            if HasRoutinesVisitor().visit(tree):
+                self._raise_macros_only(file_name)
             return self
 
         # Start Compiling
@@ -292,6 +292,11 @@ class ExplorerScriptSsbCompiler:
 
         return fs
 
+    def _raise_macros_only(self, file_name: str) -> NoReturn:
+        # noinspection PyUnusedLocal
+        fn = os.path.basename(file_name)  # noqa
+        raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
+
     def _macros_add_filenames(
         self, macros: dict[str, ExplorerScriptMacro], basefile_path: str | None, subfile_path: str
     ) -> dict[str, ExplorerScriptMacro]:
-- 
2.43.0


From 8f5fae12761d3ad02b2be7141c1076f5b89493e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 15/43] fix: report routines that are out of order as compiler
 error

---
 explorerscript/ssb_converting/ssb_compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 7bd5126..078d435 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -240,7 +240,8 @@ class ExplorerScriptSsbCompiler:
         except AssertionError as e:
             raise ValueError(str(e)) from e
 
-        assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
+        if not routine_op_offsets_are_ordered(compiler_visitor.routine_ops):
+            raise SsbCompilerError(_("The routines must be defined in the order of their ids."))
 
         # Copy from listener / remove labels and label jumps
         label_finalizer = LabelFinalizer(strip_last_label(compiler_visitor.routine_ops))
-- 
2.43.0


From 146be1782506b4154443cabda64856dc3b862cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 16/43] fix: do not read meta attributes beyond the last line

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..dc47a69 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -38,7 +38,7 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     if len(lines) < 1:
         return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From 3863ee91fb8a4173bb7d3189007a484fcf367dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 17/43] fix: report decimal routine targets as compiler error

---
 .../compiler/compile_handlers/functions/for_target_def.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index 42a5366..ae9167c 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -34,8 +34,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 )
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam
-from explorerscript.util import exps_int
+from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam, SsbOpParamFixedPoint
+from explorerscript.util import exps_int, _
 
 
 class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.For_target_defContext]):
@@ -50,6 +50,8 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         linked_to = -1
         linked_to_name = None
         integer_like = self._linked_to_target
+        if isinstance(integer_like, SsbOpParamFixedPoint):
+            raise SsbCompilerError(_("The target of a routine must not be a decimal number."))
         try:
             linked_to = exps_int(integer_like)  # type: ignore
         except ValueError:
-- 
2.43.0


From b108e0d7b6b40cf4a2b42caa057b26004be91265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 18/43] fix: refuse negative and huge routine ids

---
 .../compiler/compiler_visitor/routine_visitor.py            | 3 ++-
 explorerscript/ssb_converting/compiler/utils.py             | 6 ++++++
 .../ssb_script/ssb_converting/compiler/compiler_listener.py | 3 ++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..73e077a 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.coro_def
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.for_target_def import ForTargetDefCompileHandler
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_def import SimpleDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter, check_routine_id
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
 
 
@@ -122,6 +122,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
     def _enlarge_routine_info(self) -> None:
+        check_routine_id(self._active_routine_id)
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index e1095bd..dadacab 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -252,6 +252,12 @@ def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> boo
     return True
 
 
+def check_routine_id(routine_id: int) -> None:
+    """Routines are counted with 16 bit."""
+    if not 0 <= routine_id <= 0xFFFF:
+        raise SsbCompilerError(_("The id of a routine must be between 0 and 65535."))
+
+
 def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
     """
     Checks if the last opcode of a routine is a label, and if so
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..de7675e 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -29,7 +29,7 @@ from explorerscript.antlr.SsbScriptParser import SsbScriptParser
 from explorerscript.common_syntax import parse_position_marker_arg
 from explorerscript.error import SsbCompilerError
 from explorerscript.source_map import SourceMapBuilder, SourceMapPositionMark
-from explorerscript.ssb_converting.compiler.utils import singleline_string_literal, string_literal
+from explorerscript.ssb_converting.compiler.utils import check_routine_id, singleline_string_literal, string_literal
 from explorerscript.ssb_converting.ssb_data_types import (
     SsbRoutineInfo,
     SsbOperation,
@@ -313,6 +313,7 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._labels_before_op.append(label)
 
     def _enlarge_routine_info(self) -> None:
+        check_routine_id(self._active_routine_id)
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
-- 
2.43.0


From c0d3ec64bb39c588ad52a51b0c11ec58accc0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 19/43] fix: report syntax errors in SsbScript before compiling
 it

---
 .../ssb_script/ssb_converting/ssb_compiler.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..73b344a 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -87,11 +87,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +97,10 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        # Only listen to complete trees: With syntax errors parts of it are missing.
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker.DEFAULT.walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From cbd7cbddfd605d44b6956cc40f686c87c289f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 20/43] fix: refuse jumps to undefined labels in macros that
 are not called

---
 .../compiler/compiler_visitor/macro_visitor.py     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index d8aa682..f21d413 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -33,7 +33,9 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Any
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.util import f, _
 
 
 class MacroVisitor(ExplorerScriptVisitor):
@@ -83,11 +85,21 @@ class MacroVisitor(ExplorerScriptVisitor):
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
+        self._check_labels(blueprints)
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
         return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
 
+    def _check_labels(self, blueprints: list[SsbOperation]) -> None:
+        """The labels of a macro are private to it and they must exist, even if the macro is never called."""
+        existing = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in existing:
+                # noinspection PyUnusedLocal
+                label_id = op.label.original_name  # noqa
+                raise SsbCompilerError(f(_("Label {label_id} does not exist, but a jump to it does (remove it).")))
+
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
         raise SsbCompilerError(_("Macros can not alias."))
 
-- 
2.43.0


From 993c7ccbc9c706992502d304faccf351c5254a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 21/43] fix: report assertions and too deep nesting as
 ValueError everywhere in the compiler

---
 explorerscript/ssb_converting/ssb_compiler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 078d435..e3b2a96 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -134,6 +134,16 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except AssertionError as e:
+            raise ValueError(str(e)) from e
+        except RecursionError as e:
+            raise ValueError(_("The script is nested too deeply.")) from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
-- 
2.43.0


From bef168bc4032d64ec171c59276a5fa84e1aac7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:43 +0000
Subject: [PATCH 22/43] fix: allow the same nesting in the compiler whether or
 not the decompiler was loaded

---
 explorerscript/ssb_converting/ssb_compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index e3b2a96..77a47f2 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import logging
 import os
+import sys
 from pathlib import PurePosixPath, PurePath
 from typing import NoReturn
 
@@ -45,6 +46,8 @@ from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCo
 from explorerscript.util import open_utf8, f, _
 
 logger = logging.getLogger(__name__)
+# The decompiler sets the same limit. How deeply scripts can be nested must not depend on whether it was used before.
+sys.setrecursionlimit(10000)
 
 
 class ExplorerScriptSsbCompiler:
-- 
2.43.0


From 194363fd5d3098e397084417a4f2b0a9f0fee651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 23/43] fix: make convert() of the decompilers repeatable by
 not replacing the given routine ops

---
 explorerscript/ssb_converting/ssb_decompiler.py        | 10 +++++-----
 .../ssb_script/ssb_converting/ssb_decompiler.py        |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index f1ec597..aa3f4fa 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -105,6 +105,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.forever_start_handler_stack = []
         self._line_number = 1
         self.smb = SourceMapBuilder()
 
@@ -112,17 +113,17 @@ class ExplorerScriptSsbDecompiler:
 
         # Step 1: Build labels
         resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        routine_ops = list(resolver)
         has_any_calls = any(
             any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
+            for rtn in routine_ops
         )
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
             # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
@@ -155,7 +156,6 @@ class ExplorerScriptSsbDecompiler:
         except Exception:
             # If an assertion or anything else failed, then either there is a bug in the decompiler or the script is
             # not valid, ie. has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
@@ -171,7 +171,7 @@ class ExplorerScriptSsbDecompiler:
 
             ssb_script_decompiler = SsbScriptSsbDecompiler(
                 self._routine_infos,
-                self._routine_ops,
+                raw_routine_backup_ops,
                 self._raw_named_coroutines,
             )
 
diff --git a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
index 20fc791..0564314 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
@@ -82,9 +82,9 @@ class SsbScriptSsbDecompiler:
 
         # Step 1: Build labels
         resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        routine_ops = list(resolver)
 
-        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, self._routine_ops)):
+        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, routine_ops)):
             logger.debug(
                 "Decompiling (%d, %s)...",
                 r_id,
-- 
2.43.0


From 6a979ac5a791b9f2d365ee752d3a2fcdc6f8c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 24/43] fix: count the operations of each document from 1 in
 the decompile CLI

---
 explorerscript/cli/decompile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..b8ac3ae 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,8 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
 
 class OpDict(TypedDict):
     params: list[ParamDict]
@@ -90,7 +88,7 @@ def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -135,6 +133,8 @@ def read_routines(
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
+    # The position of operations starts at 1 for every document.
+    counter = Counter()
     for r in routines:
         if "ops" not in r:
             raise ValueError("Ops for a routine not set.")
@@ -145,11 +145,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(-1, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -161,7 +161,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -173,7 +173,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -185,7 +185,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0


From 81c3a51b4850e9f9db86b46cc2da69cd8930b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 25/43] fix: do not use cached paths of another graph that had
 the same id

---
 .../ssb_converting/decompiler/graph_building/graph_minimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..eafd328 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -79,6 +79,8 @@ class SsbGraphMinimizer:
         self.optimize_ending_opcodes = optimize_ending_opcodes
         for rtn_id, rtn in enumerate(routine_ops):
             g = Graph(directed=True)
+            # The cache may still have entries for a graph that had the same id and of which the conversion was aborted.
+            find_first_common_next_vertex_in_edges__clear_cache(g)
             self._graphs.append(g)
             if len(rtn) < 1:
                 # Should not happen
-- 
2.43.0


From 044d305677c95dddc5f7cc955e2745beb5fcd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 26/43] fix: print jump targets as positions in the JSON of the
 compile CLI

---
 explorerscript/cli/compile.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..d03b09b 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -45,6 +45,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,12 +66,16 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_ops(ops: list[SsbOperation], positions: dict[int, int]) -> list[OpDict]:
+    """positions maps the offsets of all operations to their positions in the JSON document."""
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        for param in op.params:
-            if isinstance(param, int):
+        jump_param_idx = OPS_WITH_JUMP_TO_MEM_OFFSET.get(op.op_code.name)
+        for param_idx, param in enumerate(op.params):
+            if param_idx == jump_param_idx and isinstance(param, int):
+                out_op["params"].append(positions.get(param, param))
+            elif isinstance(param, int):
                 out_op["params"].append(param)
             elif isinstance(param, SsbOpParamFixedPoint):
                 out_op["params"].append({"type": "FIXED_POINT", "value": param.value})
@@ -93,30 +98,37 @@ def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
 def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
+    # Operations are referred to by their position, counted from 1 across all routines. The offsets of the compiler
+    # can have gaps.
+    positions: dict[int, int] = {}
+    for ops in routine_ops:
+        for op in ops:
+            positions[op.offset] = len(positions) + 1
+
     routines: list[RoutineDict] = []
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, positions)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, positions)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
-- 
2.43.0


From 5dd4ac4ca7e60c7f358c94cd9f76b342a12a53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 27/43] fix: print the target of routines linked to the target
 -1 in the compile CLI

---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index d03b09b..111dcf5 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -115,19 +115,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, positions),
             }
         else:
-- 
2.43.0


From c988dd44d5023bda7a39d7d93db1e6446fdec778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 28/43] fix: accept --lookup several times in the compile CLI
 as documented

---
 explorerscript/cli/compile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 111dcf5..48df1ee 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -146,7 +146,7 @@ if __name__ == "__main__":
         required=True,
         help="The JSON file containing the settings for the compiler.",
     )
-    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", metavar="PATH", help="Lookup paths.")
+    parser.add_argument("--lookup", dest="lookup_paths", action="extend", nargs="*", metavar="PATH", help="Lookup paths.")
     parser.add_argument(
         "--source-map",
         dest="source_map",
-- 
2.43.0


From 6b4ea8bc57f3765c2088ae09f237c0b94d450e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 29/43] fix: keep the names of coroutines in the decompile CLI

---
 explorerscript/cli/decompile.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index b8ac3ae..df021bf 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -143,11 +143,10 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
@@ -159,7 +158,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
@@ -171,7 +169,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
@@ -183,7 +180,6 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         else:
-- 
2.43.0


From 8f59e2b6e36b0d1d6daa3ea41d68fd215b685a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 30/43] fix: accept integers as coordinates of position marks
 in the decompile CLI

---
 explorerscript/cli/decompile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index df021bf..b1f96e9 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -79,7 +79,9 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
+def parse_pos_mark_arg(arg_str: str | int) -> tuple[int, int]:
+    if isinstance(arg_str, int):
+        return arg_str, 0
     arg_str_arr = arg_str.split(".")
     if len(arg_str_arr) < 2:
         return exps_int(arg_str), 0
-- 
2.43.0


From c1eaacd4ddbe820bcf9eca2abd5b7b8cfbce6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 31/43] fix: keep dungeon modes that are not given as the
 number of a mode when decompiling

---
 explorerscript/ssb_converting/ssb_data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..de43ec0 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -419,14 +419,17 @@ class DungeonModeConstants:
         self.close_constant = close_constant
         self.open_and_request_constant = open_and_request_constant
 
-    def get_explorerscript_constant_for(self, idx: int) -> str:
+    def get_explorerscript_constant_for(self, idx: int | SsbOpParamConstant) -> str:
+        if idx == 0:
+            return self.close_constant
         if idx == 1:
             return self.open_constant
         if idx == 2:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        # Anything else is not the number of a mode, it is kept as it is.
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From 50baab098a33a9f6916666b100efb1f4e4d32b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 32/43] fix: accept targets of routines that are constant
 arguments in the decompile CLI

---
 explorerscript/cli/decompile.py | 34 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index b1f96e9..9716765 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -76,7 +76,7 @@ class RoutineDict(TypedDict):
     type: str
     ops: list[OpDict]
     name: NotRequired[str]
-    target_id: NotRequired[str]
+    target_id: NotRequired[int | str | ParamDict]
 
 
 def parse_pos_mark_arg(arg_str: str | int) -> tuple[int, int]:
@@ -129,6 +129,17 @@ def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     return out_ops
 
 
+def read_target_id(target_id: int | str | ParamDict) -> tuple[int, str | None]:
+    """Reads the target as an id and a name. If it has a name, the id is -1."""
+    if isinstance(target_id, int):
+        return target_id, None
+    if isinstance(target_id, dict):
+        if target_id.get("type") != "CONSTANT" or "value" not in target_id:
+            raise ValueError("Invalid target for a routine.")
+        return -1, str(target_id["value"])
+    return -1, str(target_id)
+
+
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
@@ -154,34 +165,19 @@ def read_routines(
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
-            linked_to = -1
-            linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
-            else:
-                linked_to_name = str(r["target_id"])
+            linked_to, linked_to_name = read_target_id(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
-            linked_to = -1
-            linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
-            else:
-                linked_to_name = str(r["target_id"])
+            linked_to, linked_to_name = read_target_id(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
-            linked_to = -1
-            linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
-            else:
-                linked_to_name = str(r["target_id"])
+            linked_to, linked_to_name = read_target_id(r["target_id"])
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"], counter))
         else:
-- 
2.43.0


From fbbf34a4b827bc52b4191a09cb9ce9ee3cd58a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 33/43] fix: keep the label at the start of a routine that
 another routine jumps to when decompiling

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index eafd328..e3f66fe 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -732,7 +732,8 @@ class SsbGraphMinimizer:
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
                     if len(in_edges) == 0:
-                        vs_to_delete.add(v)
+                        if not v["op"].referenced_from_other_routine:
+                            vs_to_delete.add(v)
                     elif len(in_edges) == 1:
                         assert len(out_edges) == 1
                         if (
-- 
2.43.0


From 22dc73ec788d31d29f3540dd8b97b6f1dd3d3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 34/43] fix: keep the start of a routine and endless loops when
 removing jumps between labels

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index e3f66fe..1b0d873 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -129,6 +129,9 @@ class SsbGraphMinimizer:
         outs = g.incident(jump, OUT)
         assert len(outs) == 1
         ov = g.es[outs[0]].target_vertex
+        if label.index == 0 or label["op"].referenced_from_other_routine or ov.index == label.index:
+            # The label is still needed: The routine starts here, another routine jumps here, or this is an endless loop.
+            return []
         if isinstance(ov["op"], SsbLabel):
             # The jump target is just another label, redirect previous label to this one.
             ins = g.incident(label, IN)
-- 
2.43.0


From 72f07841a5e2151844c5d1d281e7bfe49aff98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 35/43] fix: keep a jump at the start of a routine when
 decompiling

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 1b0d873..6febe29 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -726,6 +726,9 @@ class SsbGraphMinimizer:
                         e = self._reconnect(g, v_before, in_edges[0], v_after, True)
                         e["flow_level"] = e["flow_level"] + 1
                         self._update_edge_style(e)
+                    elif v.index == 0:
+                        # The routine starts with this jump.
+                        continue
                     vs_to_delete.add(v)
             g.delete_vertices(vs_to_delete)
             vs_to_delete = set()
-- 
2.43.0


From 502b4c2df33c18bb98c7129bf922df865b230bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 36/43] fix: fall back to SsbScript when a label that is jumped
 to was not printed

---
 .../decompiler/write_handlers/label_jumps/call.py |  1 +
 explorerscript/ssb_converting/ssb_decompiler.py   | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 1d02725..71d5b55 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -49,6 +49,7 @@ class CallWriteHandler(AbstractWriteHandler):
         op: SsbLabelJump = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
         assert op.label is not None
+        self.decompiler.labels_jumped_to.add(op.label.id)
         self.decompiler.write_stmnt(f"call @label_{op.label.id};")
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index aa3f4fa..3f8eef6 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -66,6 +66,8 @@ class ExplorerScriptSsbDecompiler:
     indent: int
     _line_number: int
     labels_already_printed: list[int] = []
+    # Labels that any of the printed statements jump to.
+    labels_jumped_to: set[int]
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -95,6 +97,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self._line_number = 1
         self.labels_already_printed = []
+        self.labels_jumped_to = set()
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -105,6 +108,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.labels_jumped_to = set()
         self.forever_start_handler_stack = []
         self._line_number = 1
         self.smb = SourceMapBuilder()
@@ -151,6 +155,7 @@ class ExplorerScriptSsbDecompiler:
                 )
                 RoutineWriteHandler(self, r_id, r_info, r_graph).write_content()
 
+            assert self.labels_jumped_to.issubset(self.labels_already_printed), "A label was not printed."
             return self._output, self.smb.build()
 
         except Exception:
@@ -204,10 +209,10 @@ class ExplorerScriptSsbDecompiler:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -216,7 +221,11 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
+
+    def _write_jump(self, label_id: int) -> None:
+        self.labels_jumped_to.add(label_id)
+        self.write_stmnt(f"jump @label_{label_id};")
 
     def source_map_add_opcode(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode."""
-- 
2.43.0


From 5e723013f908a78028aac0516bb62b729d1ad579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 37/43] fix: continue after a call and not with what it calls
 when decompiling

---
 .../decompiler/graph_building/graph_minimizer.py           | 7 +++++++
 .../decompiler/write_handlers/label_jumps/call.py          | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6febe29..519bad4 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -834,10 +834,13 @@ class SsbGraphMinimizer:
             if isinstance(g.vs[op_i]["op"], SsbForeignLabel):
                 continue  # No out edges here, no real ops here.
             already_visited.add(op_i)
+            vertex_flow_level = flow_level
             for flow_level, nxt in self._get_edges__get_next_for(g, rtn, rtn_id, flow_level, label_indices, op_i):
                 e = g.add_edge(op_i, nxt, flow_level=flow_level, label=None, is_else=False, switch_ops=None, loop=False)
                 if is_loop(g, g.vs[op_i], e):
                     e["loop"] = True
+                # The flow continues after a call, the other edge is just the reference to the label that is called.
+                e["is_call"] = flow_level > vertex_flow_level and self._is_call(g.vs[op_i]["op"])
                 self._update_edge_style(e)
                 nxt_stack.insert(0, (flow_level, nxt))
 
@@ -897,6 +900,10 @@ class SsbGraphMinimizer:
 
         return next_ops
 
+    @staticmethod
+    def _is_call(op: SsbOperation) -> bool:
+        return isinstance(op, SsbLabelJump) and any(isinstance(m, CallJump) for m in op.markers)
+
     @classmethod
     def _reconnect(
         cls,
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 71d5b55..d48f832 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -53,4 +53,9 @@ class CallWriteHandler(AbstractWriteHandler):
         self.decompiler.write_stmnt(f"call @label_{op.label.id};")
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
+        # Continue with the operation after the call, not with the one that is called.
+        exits = [e for e in exits if not e["is_call"]]
+        if len(exits) == 0:
+            self.decompiler.write_return()
+            return None
         return exits[0].target_vertex
-- 
2.43.0


From 5f486c316dddb84ae447a2457a6deb17e9fda701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 38/43] fix: give cases of switches in different routines
 different labels when decompiling

---
 .../decompiler/write_handlers/label_jumps/switch_start.py  | 7 ++++---
 explorerscript/ssb_converting/ssb_decompiler.py            | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..bec010a 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -97,12 +97,13 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         self.decompiler.write_stmnt("default:")
                     with Blk(self.decompiler, False):
                         logger.debug("... NOW block for cases.")
-                        # If this will be visited multiple times, we need a label
+                        # If this will be visited multiple times, we need a label (unique across all routines)
+                        label = f"@switch{self.decompiler.current_routine_id}_{m.switch_id}_{e.index}"
                         if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
-                            self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
+                            self.decompiler.write_stmnt(f"{label};")
                         if e in already_printed_edges:
                             # Write the label jump instead
-                            self.decompiler.write_stmnt(f"jump @switch{m.switch_id}_{e.index};")
+                            self.decompiler.write_stmnt(f"jump {label};")
                         else:
                             already_printed_edges.add(e)
                             # Print a switch case branch
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 3f8eef6..76b36d0 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -68,6 +68,8 @@ class ExplorerScriptSsbDecompiler:
     labels_already_printed: list[int] = []
     # Labels that any of the printed statements jump to.
     labels_jumped_to: set[int]
+    # Index of the routine that is currently being written.
+    current_routine_id: int
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -98,6 +100,7 @@ class ExplorerScriptSsbDecompiler:
         self._line_number = 1
         self.labels_already_printed = []
         self.labels_jumped_to = set()
+        self.current_routine_id = 0
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -109,6 +112,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self.labels_already_printed = []
         self.labels_jumped_to = set()
+        self.current_routine_id = 0
         self.forever_start_handler_stack = []
         self._line_number = 1
         self.smb = SourceMapBuilder()
@@ -153,6 +157,7 @@ class ExplorerScriptSsbDecompiler:
                     r_id,
                     self.named_coroutines[r_id] if r_id in self.named_coroutines else None,
                 )
+                self.current_routine_id = r_id
                 RoutineWriteHandler(self, r_id, r_info, r_graph).write_content()
 
             assert self.labels_jumped_to.issubset(self.labels_already_printed), "A label was not printed."
-- 
2.43.0


From 89ae71c31da813c586624aaa00b2563f9366db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 39/43] fix: keep the jump of a block with only a jump if one
 of the conditions is inverted

---
 .../ssb_converting/compiler/compile_handlers/abstract.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 34f8f17..668356a 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -172,6 +172,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
 
         if (
             len(self._header_jump_blueprints) > 0
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
-- 
2.43.0


From 57f1dd4ba3270a4e5b81a3cefb972dcf51ccd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 40/43] fix: keep the jump of a case with only a jump if the
 case before continues into it

---
 .../compiler/compile_handlers/abstract.py              |  4 ++++
 .../compile_handlers/blocks/switches/switch_block.py   | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 668356a..01343b0 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -136,6 +136,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
     processed_header_jumps: list[SsbLabelJump]
     start_label: SsbLabel | None
     end_label: SsbLabel | None
+    # The only op of the block, if it was a jump and the headers now go where it went
+    replaced_jump: SsbLabelJump | None
 
     def __init__(self, ctx: CTX, compiler_ctx: CompilerCtx):
         super().__init__(ctx, compiler_ctx)
@@ -144,6 +146,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self._added_handlers = []
         self.start_label = None
         self.end_label = None
+        self.replaced_jump = None
 
     def _process_block(self, insert_the_jump_if_needed: bool = True) -> list[SsbOperation]:
         """
@@ -182,6 +185,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
                 assert ops[0].label is not None
                 self.processed_header_jumps.append(hjb.build_for(ops[0].label))
             self.start_label = ops[0].label
+            self.replaced_jump = ops[0]
             return [self.end_label]  # in this case we don't actually have any operations to write
 
         if insert_the_jump_if_needed and (
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 4e3ada4..96e20ee 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.def
 from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.switch_header import (
     SwitchHeaderCompileHandler,
 )
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
@@ -105,6 +105,7 @@ class SwitchBlockCompileHandler(
             default_ops = [self._generate_jump_operation(OP_JUMP, [], end_label)]
         # 3. For each case:
         cases_waiting_for_a_block = []
+        falls_through = False
         for i, h in enumerate(self._case_handlers):
             if not h.has_sub_block_handlers():
                 # 3b. Else: Jump to the block of the next case which has a block.
@@ -112,6 +113,13 @@ class SwitchBlockCompileHandler(
             else:
                 # 3a. If the case has operations: Collect case sub-block ops
                 ops = h.collect()
+                if h.replaced_jump is None:
+                    # (ops ends with the end label of the block)
+                    falls_through = len(ops) < 3 or not does_op_end_control_flow(ops[-2], ops[-3])
+                elif falls_through:
+                    # The case before continues here, it still needs the jump
+                    ops.insert(0, h.replaced_jump)
+                    falls_through = False
                 start_label = h.get_start_label()
                 assert start_label is not None
                 if isinstance(h, DefaultCaseBlockCompileHandler):
-- 
2.43.0


From a3d164dc3195366f56654592a376c00897da95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 41/43] fix: keep the start of a routine if it is a label that
 is not needed and a jump when decompiling

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 519bad4..eb1c51d 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -723,6 +723,9 @@ class SsbGraphMinimizer:
                             # shouldn't remove it
                             # (may be a loop start for example)
                             continue
+                        if v_before.index == 0 and isinstance(v_before["op"], SsbLabel) and not v_before.in_edges():
+                            # The routine starts with this jump. The label before it isn't needed and will be removed.
+                            continue
                         e = self._reconnect(g, v_before, in_edges[0], v_after, True)
                         e["flow_level"] = e["flow_level"] + 1
                         self._update_edge_style(e)
-- 
2.43.0


From c88f04b9a589de050d9ca8b6f2e7fe727209b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:51 +0000
Subject: [PATCH 42/43] fix: keep the jump to the end of a routine behind a
 label that only other routines jump to

---
 explorerscript/ssb_converting/compiler/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index dadacab..548d311 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -265,13 +265,14 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
     """
     logger.debug("Stripping last label...")
     returned_routine_ops = []
+    # Labels can also be jumped to from other routines.
+    jump_counts: dict[int, int] = {}
+    for routine in routine_ops:
+        for op in routine:
+            if isinstance(op, SsbLabelJump) and op.label is not None:
+                jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
     for routine in routine_ops:
         if len(routine) > 0:
-            jump_counts: dict[int, int] = {}
-            for op in routine:
-                if isinstance(op, SsbLabelJump) and op.label is not None:
-                    jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
-
             while len(routine) > 0 and isinstance(routine[-1], SsbLabel):
                 indices_to_remove = set()
                 label = routine[-1]
-- 
2.43.0


From b60550dfcff5b5e9fa2459ae1efe135ad6b0593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 43/43] fix: continue after an if without an else if its block
 ends on a jump when decompiling

---
 .../decompiler/write_handlers/label_jumps/if_start.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..47cc6e3 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -98,6 +98,9 @@ class IfWriteHandler(AbstractWriteHandler):
                             check_end_block=self.check_end_block,
                         )
                         v_after_else_branch = else_branch_handler.write_content()
+            else:
+                # There is no else-branch, the flow continues at the end of the if.
+                v_after_else_branch = else_edge.target_vertex
 
             # Those must be the same, either None or a common vertex
             # ... or either of them must end on a jump, then it's also okay if one of them is None but the other not.
-- 
2.43.0

