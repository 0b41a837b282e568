From 5f3f8aeaaa1bdd7ab102c7edd42282a7b0c12be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 01/59] fix: keep file-system store keys out of sibling
 directories

A plain string-prefix test accepted '../store-evil/x' for root '/data/store'.
---
 mplang/runtime/object_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 3d10579..a3526a3 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -180,7 +180,7 @@ class FileSystemBackend(StoreBackend):
         root = os.path.abspath(self._root_path)
         clean_key = key.lstrip("/")
         path = os.path.abspath(os.path.join(root, clean_key))
-        if not path.startswith(root):
+        if os.path.commonpath([root, path]) != root:
             raise ValueError(f"Invalid key (traversal attempt): {key}")
         return path
 
-- 
2.43.0


From 10454616ed55af1fe86683e01319abdb0055edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 02/59] fix: publish async results before the terminal status

A status poll between the two stores saw SUCCESS without a result (or FAILED
without an error), and a result that cannot be serialized was reported as
SUCCESS first and FAILED later.
---
 mplang/backends/simp_worker/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 29dc3ba..1624039 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -691,12 +691,12 @@ def register_routes(
         async_tasks[exec_id].status = AsyncTaskStatus.RUNNING
         try:
             result = _do_execute(graph, inputs, job_id)
-            async_tasks[exec_id].status = AsyncTaskStatus.SUCCESS
             async_tasks[exec_id].result = serde.dumps_b64(result)
+            async_tasks[exec_id].status = AsyncTaskStatus.SUCCESS
         except Exception as e:
             logger.error(f"Worker {rank} async exec failed: {e}")
-            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
             async_tasks[exec_id].error = str(e)
+            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
 
     @app.post("/exec")
     async def execute(req: ExecRequest) -> dict[str, str]:
-- 
2.43.0


From 06aeced801b7ec29518f5a9866f9ab955cd4488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 03/59] fix: number sends and receives of a CommContext
 separately

With one shared counter, two parties exchanging values in the same shuffle
({0: 1, 1: 0}) each waited for a message key the other never used.
---
 mplang/backends/simp_worker/comm_context.py | 23 +++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mplang/backends/simp_worker/comm_context.py b/mplang/backends/simp_worker/comm_context.py
index 744c7f2..e72fd10 100644
--- a/mplang/backends/simp_worker/comm_context.py
+++ b/mplang/backends/simp_worker/comm_context.py
@@ -35,12 +35,12 @@ class CommContext:
 
     Key format: ``"{context_id}:{seq}"``
 
-    Send and recv to the same peer share **one** counter to maintain SPMD
-    symmetry: for any peer pair (A, B), A's N-th interaction with B matches
-    B's N-th interaction with A.
+    Each direction has its own per-peer counter: for any peer pair (A, B), A's
+    N-th send to B matches B's N-th recv from A, however the two sides
+    interleave their sends and receives.
     """
 
-    __slots__ = ("_comm", "_id", "_rank", "_seq", "_spawn_counter")
+    __slots__ = ("_comm", "_id", "_rank", "_recv_seq", "_send_seq", "_spawn_counter")
 
     def __init__(
         self,
@@ -51,7 +51,8 @@ class CommContext:
         self._comm = comm
         self._id = context_id
         self._rank = my_rank
-        self._seq: dict[int, int] = defaultdict(int)
+        self._send_seq: dict[int, int] = defaultdict(int)
+        self._recv_seq: dict[int, int] = defaultdict(int)
         self._spawn_counter: int = 0
 
     @property
@@ -85,8 +86,8 @@ class CommContext:
         return CommContext(self._comm, child_id, self._rank)
 
     def send(self, to: int, data: Any, *, is_raw_bytes: bool = False) -> SendRequest:
-        seq = self._seq[to]
-        self._seq[to] = seq + 1
+        seq = self._send_seq[to]
+        self._send_seq[to] = seq + 1
         key = f"{self._id}:{seq}"
         return self._comm.send(to, key, data, is_raw_bytes=is_raw_bytes)
 
@@ -98,13 +99,13 @@ class CommContext:
         is_raw_bytes: bool = False,
         timeout: float | None = None,
     ) -> None:
-        seq = self._seq[to]
-        self._seq[to] = seq + 1
+        seq = self._send_seq[to]
+        self._send_seq[to] = seq + 1
         key = f"{self._id}:{seq}"
         self._comm.send_sync(to, key, data, is_raw_bytes=is_raw_bytes, timeout=timeout)
 
     def recv(self, frm: int, *, timeout: float | None = None) -> Any:
-        seq = self._seq[frm]
-        self._seq[frm] = seq + 1
+        seq = self._recv_seq[frm]
+        self._recv_seq[frm] = seq + 1
         key = f"{self._id}:{seq}"
         return self._comm.recv(frm, key, timeout=timeout)
-- 
2.43.0


From 396f707ddbc6d66da317ccb557447c8640520f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 04/59] fix: make equal table types hash equally

TableType.__eq__ ignores column order while __hash__ depended on it.
---
 mplang/edsl/typing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/edsl/typing.py b/mplang/edsl/typing.py
index 03f9b51..1983e89 100644
--- a/mplang/edsl/typing.py
+++ b/mplang/edsl/typing.py
@@ -616,7 +616,7 @@ class TableType(BaseType):
         return self.schema == other.schema and self.nrows == other.nrows
 
     def __hash__(self) -> int:
-        return hash(("TableType", tuple(self.schema.items()), self.nrows))
+        return hash(("TableType", frozenset(self.schema.items()), self.nrows))
 
     @property
     def is_dynamic(self) -> bool:
-- 
2.43.0


From 1f97870c82495617a064e1fcf683b150a92c18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 05/59] fix: return every row when a table batch spans several
 native batches

to_batches()[0] of an uncombined table is only its first chunk; the rows of the
other chunks were dropped.
---
 mplang/backends/table_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 49aa914..7ad49f6 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -235,7 +235,7 @@ class TableReader(BatchReader):
             return batches[0]
 
         # Otherwise, combine all batches and return as a single RecordBatch
-        combined = pa.Table.from_batches(batches)
+        combined = pa.Table.from_batches(batches).combine_chunks()
         return combined.to_batches()[0]
 
     def close(self) -> None:
-- 
2.43.0


From 7d3a5174e14a106ccc3bb6cbda9d7af75bc2f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 06/59] fix: keep an all-default SPU link description across
 serialization

It is written as an empty dict, which was read back as None.
---
 mplang/dialects/spu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/spu.py b/mplang/dialects/spu.py
index 7b0a9a9..63b7449 100644
--- a/mplang/dialects/spu.py
+++ b/mplang/dialects/spu.py
@@ -209,7 +209,9 @@ class SPUConfig:
             enable_hal_profile=profiling_flag("enable_hal_profile"),
             enable_pphlo_trace=profiling_flag("enable_pphlo_trace"),
             enable_action_trace=profiling_flag("enable_action_trace"),
-            link_desc=SPULinkDesc.from_dict(link_desc) if link_desc else None,
+            link_desc=(
+                SPULinkDesc.from_dict(link_desc) if link_desc is not None else None
+            ),
         )
 
     # --- Serde methods ---
-- 
2.43.0


From d0738409c4ca3b92d99a1268fbce354739f189a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 07/59] fix: keep column order of table types in packed
 artifacts

Sorting JSON keys reordered table schemas and dict attributes on unpack.
---
 mplang/tool/program.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mplang/tool/program.py b/mplang/tool/program.py
index 80ce294..d38a31e 100644
--- a/mplang/tool/program.py
+++ b/mplang/tool/program.py
@@ -231,7 +231,6 @@ def pack(program: CompiledProgram, *, compress: bool = True) -> bytes:
         serde.to_json(program),
         ensure_ascii=False,
         indent=2,
-        sort_keys=True,
     ).encode("utf-8")
 
     buf = io.BytesIO()
-- 
2.43.0


From 08afa6add344a9d41c414ec51aa6982c0864b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 08/59] fix: do not hand out the BFV secret key as relin/galois
 keys

The keys are sent to the evaluating party; the returned context contained the
secret key.
---
 mplang/backends/bfv_impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 53d1b76..ad18791 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -288,15 +288,15 @@ def keygen_impl(
 @bfv.make_relin_keys_p.def_impl
 def make_relin_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    return sk.make_public()
 
 
 @bfv.make_galois_keys_p.def_impl
 def make_galois_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    return sk.make_public()
 
 
 @bfv.create_encoder_p.def_impl
-- 
2.43.0


From e4e4fc02482d010a93ac8da164edadb6691a17e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 09/59] fix: restore value names of a graph without collisions

Renaming outputs one by one clobbered values whose generated and original names
overlap (non-dense or reordered names).
---
 mplang/edsl/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mplang/edsl/graph.py b/mplang/edsl/graph.py
index 60fc34b..85b47b0 100644
--- a/mplang/edsl/graph.py
+++ b/mplang/edsl/graph.py
@@ -217,6 +217,9 @@ class Graph:
         """Generate a unique SSA value name."""
         name = f"%{self._value_counter}"
         self._value_counter += 1
+        while name in self.values:
+            name = f"%{self._value_counter}"
+            self._value_counter += 1
         return name
 
     def add_value(self, type: BaseType, name: str | None = None) -> Value:
@@ -444,13 +447,12 @@ class Graph:
             )
 
             # Rename outputs to match original names
-            for out_val, out_data in zip(outputs, op_data["outputs"], strict=False):
-                original_name = out_data["name"]
-                if out_val.name != original_name:
-                    # Update the values dict with the original name
-                    del graph.values[out_val.name]
-                    out_val.name = original_name
-                    graph.values[original_name] = out_val
+            for out_val in outputs:
+                # Drop all generated names first: one may be another's original
+                del graph.values[out_val.name]
+            for out_val, out_data in zip(outputs, op_data["outputs"], strict=True):
+                out_val.name = out_data["name"]
+                graph.values[out_val.name] = out_val
 
             # Set operation name if provided
             if op_data.get("name"):
-- 
2.43.0


From 6130d05e21b7f9f50d543f5c6bdad3d69e56673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 10/59] fix: reject uniform_cond branches that differ in
 structure or constants

Only the types of traced outputs were compared; with the predicate false, the
result still had the then-branch's structure and constants.
---
 mplang/dialects/simp.py |  3 ++-
 mplang/edsl/tracer.py   | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 04d3be6..60e7133 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -181,7 +181,8 @@ def _uniform_cond_trace(
         then_types = [v.type for v in then_traced.graph.outputs]
         else_types = [v.type for v in else_traced.graph.outputs]
         raise TypeError(
-            "uniform_cond branch output signature mismatch: "
+            "uniform_cond branch output signature mismatch "
+            "(structure, constants or types): "
             f"then={then_types}, else={else_types}"
         )
 
diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 46ef564..4e02449 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -29,6 +29,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, Any, cast
 
+import numpy as np
 from jax.tree_util import tree_flatten, tree_map
 
 from mplang.edsl.context import Context
@@ -465,8 +466,16 @@ class TracedFunction:
             other: Another TracedFunction to compare against
 
         Returns:
-            True if output counts and types match, False otherwise
+            True if output structure, constants, counts and types match,
+            False otherwise
         """
+        if self.out_tree != other.out_tree or self.out_var_pos != other.out_var_pos:
+            return False
+        if not all(
+            a is b or (type(a) is type(b) and np.array_equal(a, b))
+            for a, b in zip(self.out_imms, other.out_imms, strict=True)
+        ):
+            return False
         if len(self.graph.outputs) != len(other.graph.outputs):
             return False
         return all(
-- 
2.43.0


From a7c566ceaaef75d23dc721bfa2628f238dca6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 11/59] fix: refuse to write tables of different lengths side
 by side

MultiTableReader stopped at the first exhausted source, silently dropping the
remaining rows of the others.
---
 mplang/backends/table_impl.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 7ad49f6..a81612b 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -853,8 +853,17 @@ class MultiTableReader(BatchReader):
     def read_next_batch(self) -> pa.RecordBatch:
         num_rows = -1
         columns: list[pa.ChunkedArray] = []
-        for idx, r in enumerate(self._readers):
-            batch = r.read_next_batch()
+        batches: list[pa.RecordBatch] = []
+        for r in self._readers:
+            try:
+                batches.append(r.read_next_batch())
+            except StopIteration:
+                continue
+        if not batches:
+            raise StopIteration
+        if len(batches) != len(self._readers):
+            raise ValueError("Tables have different numbers of rows")
+        for idx, batch in enumerate(batches):
             if num_rows == -1:
                 num_rows = batch.num_rows
             elif num_rows != batch.num_rows:
-- 
2.43.0


From c15775537a4c87ebe2a35df10bbe8b251267948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 12/59] fix: leave the destination of a failed table write
 untouched

A failing write truncated and then deleted an existing destination file, and the
JSON writer left a partial file behind.
---
 mplang/backends/table_impl.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index a81612b..bc679c5 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -20,6 +20,7 @@ Implements execution logic for Table primitives using DuckDB and PyArrow.
 from __future__ import annotations
 
 import base64
+import uuid
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from typing import Any, ClassVar, Protocol, Self, cast, runtime_checkable
@@ -894,7 +895,11 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
 
     fmt = _infer_format(path, format_hint)
 
-    def _do_write(resolved: str) -> None:
+    def _do_write(dest: str) -> None:
+        # Write next to the destination and rename, so that the destination
+        # only ever holds a complete file.
+        final = os.path.realpath(dest)
+        resolved = f"{final}.{uuid.uuid4().hex}.tmp"
         batch_size = DEFAULT_BATCH_SIZE if len(tables) > 1 else -1
         readers: list[TableReader] = []
         for t in tables:
@@ -955,14 +960,16 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             raise e
 
         try:
-            for batch in reader:
-                writer.write_batch(batch)
+            try:
+                for batch in reader:
+                    writer.write_batch(batch)
+            finally:
+                reader.close()
+                writer.close()
+            os.replace(resolved, final)
         except Exception as e:
             _safe_remove_file(resolved)
             raise e
-        finally:
-            reader.close()
-            writer.close()
 
     if interpreter.store:
         local_path = os.path.abspath(os.path.join(".tmp", path))
-- 
2.43.0


From 90ea5980ac535fb8bffd269e6c6602f09b77f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 13/59] fix: stage table files in the worker's own directory

Relative table paths were staged under ./.tmp of the process. Workers of a local
cluster share it, so one party's lazily read table could be replaced by another
party's file of the same name, and a path with parent segments was written
outside of the staging directory.
---
 mplang/backends/table_impl.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index bc679c5..415d73d 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -20,6 +20,7 @@ Implements execution logic for Table primitives using DuckDB and PyArrow.
 from __future__ import annotations
 
 import base64
+import os
 import uuid
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
@@ -808,14 +809,28 @@ def _infer_format(path: str, format_hint: str) -> str:
         return "parquet"
 
 
+def _staging_path(interpreter: Interpreter, path: str) -> str:
+    """Local file through which *path* is exchanged with the object store.
+
+    Absolute paths are used in place. Relative ones are staged under the
+    interpreter's own directory, so that parties sharing a process or a working
+    directory do not replace each other's files, and never outside of it.
+    """
+    if os.path.isabs(path):
+        return os.path.abspath(path)
+    root = os.path.abspath(interpreter.root_dir / "cache" / "table")
+    staged = os.path.abspath(os.path.join(root, path))
+    if os.path.commonpath([root, staged]) != root:
+        raise ValueError(f"Invalid path (traversal attempt): {path}")
+    return staged
+
+
 @table.read_p.def_impl
 def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
     """Read table from file.
 
     Supported formats: parquet, csv, json
     """
-    import os
-
     path: str = op.attrs["path"]
     schema: elt.TableType = op.attrs["schema"]
     format_hint: str = op.attrs.get("format", "auto")
@@ -828,7 +843,7 @@ def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
         return _wrap(FileTableSource(path=resolved, format=fmt, schema=pa_schema))
 
     if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
+        local_path = _staging_path(interpreter, path)
         os.makedirs(os.path.dirname(local_path), exist_ok=True)
         interpreter.store.download(path, local_path)
         return _do_read(local_path)
@@ -888,8 +903,6 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
     For LazyTable, performs streaming writes when supported.
     For regular Tables, performs direct writes.
     """
-    import os
-
     path: str = op.attrs["path"]
     format_hint: str = op.attrs.get("format", "parquet")
 
@@ -972,7 +985,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             raise e
 
     if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
+        local_path = _staging_path(interpreter, path)
         os.makedirs(os.path.dirname(local_path), exist_ok=True)
         _do_write(local_path)
         interpreter.store.upload(local_path, path)
-- 
2.43.0


From a4c2d43844a8e459c53a7e3d9471bee9e97a6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 14/59] fix: give every dispatched job its own communication
 context

All jobs shared the context id "anonymous" with counters restarting at zero:
concurrent jobs exchanged each other's messages, and a message left over by a
failed job was delivered to the next one.
---
 mplang/backends/simp_driver/ops.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_driver/ops.py b/mplang/backends/simp_driver/ops.py
index 10588cb..41ec2e1 100644
--- a/mplang/backends/simp_driver/ops.py
+++ b/mplang/backends/simp_driver/ops.py
@@ -21,6 +21,7 @@ Op-specific logic lives in Worker handlers (simp_worker/ops.py).
 
 from __future__ import annotations
 
+import uuid
 from typing import Any
 
 from mplang.backends.simp_driver.values import DriverVar
@@ -104,14 +105,19 @@ def _generic_simp_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
     # 1. Wrap operation into a Graph
     wrapper_graph = _wrap_op_as_graph(op)
 
-    # 2. SPMD dispatch to ALL workers
+    # 2. SPMD dispatch to ALL workers.  The job id names the communication
+    # context of this dispatch: the same on every worker, and never reused, so
+    # that messages of concurrent or failed dispatches are not mixed up.
+    job_id = uuid.uuid4().hex
     futures = []
     for rank in range(world_size):
         # Extract per-party inputs from DriverVars
         party_inputs = [
             arg[rank] if isinstance(arg, DriverVar) else arg for arg in args
         ]
-        futures.append(driver.submit(rank, wrapper_graph, party_inputs))
+        futures.append(
+            driver.submit(rank, wrapper_graph, party_inputs, job_id=job_id)
+        )
 
     # 3. Collect results
     results = driver.collect(futures)
-- 
2.43.0


From 89e059524c491cdd234333d4334ec6477455ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 15/59] fix: derive spawned communication contexts from their
 suffix alone

The shared spawn counter in the id depends on the order in which concurrent
operations become ready, which differs between parties.
---
 mplang/backends/simp_worker/comm_context.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/simp_worker/comm_context.py b/mplang/backends/simp_worker/comm_context.py
index e72fd10..4321368 100644
--- a/mplang/backends/simp_worker/comm_context.py
+++ b/mplang/backends/simp_worker/comm_context.py
@@ -40,7 +40,15 @@ class CommContext:
     interleave their sends and receives.
     """
 
-    __slots__ = ("_comm", "_id", "_rank", "_recv_seq", "_send_seq", "_spawn_counter")
+    __slots__ = (
+        "_comm",
+        "_id",
+        "_rank",
+        "_recv_seq",
+        "_send_seq",
+        "_spawn_counter",
+        "_suffix_seq",
+    )
 
     def __init__(
         self,
@@ -54,6 +62,7 @@ class CommContext:
         self._send_seq: dict[int, int] = defaultdict(int)
         self._recv_seq: dict[int, int] = defaultdict(int)
         self._spawn_counter: int = 0
+        self._suffix_seq: dict[str, int] = defaultdict(int)
 
     @property
     def rank(self) -> int:
@@ -68,8 +77,9 @@ class CommContext:
 
         Args:
             suffix: Explicit suffix for the child context ID.  When provided,
-                ``context_id = f"{parent_id}.{suffix}"``.  This is used when
-                the caller needs a deterministic, content-based ID that is
+                ``context_id = f"{parent_id}.{n}.{suffix}"`` where ``n`` counts
+                the earlier spawns of the same suffix.  This is used when the
+                caller needs a deterministic, content-based ID that is
                 stable across ranks regardless of call order (e.g. the async
                 DAG scheduler uses ``f"{graph_exec_key}.{op_idx}"``).
 
@@ -81,7 +91,10 @@ class CommContext:
         if suffix is None:
             child_id = f"{self._id}.{self._spawn_counter}"
         else:
-            child_id = f"{self._id}.{self._spawn_counter}.{suffix}"
+            # Number each suffix separately: the order in which different
+            # suffixes are spawned may differ between ranks.
+            child_id = f"{self._id}.{self._suffix_seq[suffix]}.{suffix}"
+            self._suffix_seq[suffix] += 1
         self._spawn_counter += 1
         return CommContext(self._comm, child_id, self._rank)
 
-- 
2.43.0


From 97365f866611cdfa5fa22abb4e3cbf76c5662256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 16/59] fix: restore the thread's communication context after
 every graph execution

An operation that executed a nested graph went on with the context of whichever
nested operation ran last on its thread, and an error left it installed.
---
 mplang/runtime/interpreter.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index a6414de..fee11f7 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -884,10 +884,19 @@ class Interpreter(AbstractInterpreter):
             job_id,
             self.executor is not None,
         )
-        if self.executor:
-            return self._evaluate_graph_async(graph, inputs, job_id)
-        else:
-            return self._evaluate_graph_sync(graph, inputs, job_id)
+        # Whatever CommContext the execution installs in TLS must not outlive it:
+        # an enclosing op continues with its own context (also after an error).
+        prev_comm_ctx = getattr(self._tls, "comm_ctx", None)
+        try:
+            if self.executor:
+                return self._evaluate_graph_async(graph, inputs, job_id)
+            else:
+                return self._evaluate_graph_sync(graph, inputs, job_id)
+        finally:
+            if prev_comm_ctx is not None:
+                self._tls.comm_ctx = prev_comm_ctx
+            elif hasattr(self._tls, "comm_ctx"):
+                del self._tls.comm_ctx
 
     def current_comm_ctx(self) -> CommContext:
         """Return the current CommContext for this execution.
@@ -934,11 +943,10 @@ class Interpreter(AbstractInterpreter):
         # Local environment: Value -> Runtime Object
         env = dict(zip(graph.inputs, inputs, strict=True))
 
-        # Set CommContext in TLS if not already set (save/restore for nested
-        # evaluate_graph calls — e.g. pcall_static inside an async op that
-        # already has a child CommContext in TLS).
-        prev_comm_ctx = getattr(self._tls, "comm_ctx", None)
-        if prev_comm_ctx is None and self.comm_ctx is not None:
+        # Set CommContext in TLS if not already set (nested evaluate_graph
+        # calls — e.g. pcall_static inside an async op — already have a child
+        # CommContext in TLS).  evaluate_graph restores the previous state.
+        if getattr(self._tls, "comm_ctx", None) is None and self.comm_ctx is not None:
             self._tls.comm_ctx = self.comm_ctx
 
         # Build consumer counts for intermediate value GC
@@ -1004,13 +1012,6 @@ class Interpreter(AbstractInterpreter):
         if self.tracer and job_id:
             self.tracer.save_trace(job_id=job_id, rank=self.trace_pid)
 
-        # Restore previous comm_ctx (only if we were the one who set it)
-        if prev_comm_ctx is None and self.comm_ctx is not None:
-            try:
-                delattr(self._tls, "comm_ctx")
-            except AttributeError:
-                pass
-
         return [env[out] for out in graph.outputs]
 
     def _evaluate_graph_async(
-- 
2.43.0


From 76fe936c06a453efd46546b55a32e7308eb82807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 17/59] fix: keep SPU channel links of different party sets
 apart

The link and runtime caches ignored the peers' global ranks, so a second SPU
device with other parties reused the link to the first one's peers.
---
 mplang/backends/spu_state.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/spu_state.py b/mplang/backends/spu_state.py
index 73a1471..378f850 100644
--- a/mplang/backends/spu_state.py
+++ b/mplang/backends/spu_state.py
@@ -118,7 +118,7 @@ class SPUState(DialectState):
         self._infra = infra
         self._brpc_config = brpc_config or BrpcLinkConfig()
         # Key: (local_rank, world_size, protocol, field, fxp_fraction_bits,
-        # profiling flags, link_mode, spu_endpoints, brpc_config).
+        # profiling flags, link_mode, spu_endpoints, brpc_config, parties).
         # ``brpc_config`` participates only when link_mode == "brpc" (else None)
         # so callers passing custom configs don't silently reuse the first
         # config's link.
@@ -137,6 +137,7 @@ class SPUState(DialectState):
                 str,
                 tuple[str, ...] | None,
                 BrpcLinkConfig | None,
+                tuple[int, ...] | None,
             ],
             tuple[spu_api.Runtime, spu_api.Io],
         ] = {}
@@ -247,6 +248,10 @@ class SPUState(DialectState):
         brpc_config = (
             self._effective_brpc_config(config) if link_mode == "brpc" else None
         )
+        # A channels link is bound to the global ranks of its peers.
+        channel_parties = (
+            tuple(parties) if link_mode == "channels" and parties else None
+        )
         link_cache_key = (
             local_rank,
             spu_world_size,
@@ -256,6 +261,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            channel_parties,
         )
         runtime_cache_key = (
             local_rank,
@@ -270,6 +276,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            channel_parties,
         )
 
         if runtime_cache_key in self._runtimes:
-- 
2.43.0


From 1e328bbec5af929ff532698c4bc7405d2ebe23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 18/59] fix: use separate message tags for each SPU channels
 link

Links for different SPU configurations or devices over the same communicator
all used the prefix "spu" with identically numbered contexts, so messages of
one link could be taken for another's.
---
 mplang/backends/spu_state.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/spu_state.py b/mplang/backends/spu_state.py
index 378f850..5b77255 100644
--- a/mplang/backends/spu_state.py
+++ b/mplang/backends/spu_state.py
@@ -179,6 +179,7 @@ class SPUState(DialectState):
         parties: list[int] | None,
         spu_endpoints: list[str] | None,
         brpc_config: BrpcLinkConfig | None = None,
+        tag_prefix: str = "spu",
     ) -> libspu.link.Context:
         """Get or create a template link for the given configuration.
 
@@ -194,7 +195,7 @@ class SPUState(DialectState):
                 if parties is None:
                     raise ValueError("parties required when using communicator")
                 return self._create_channels_link(
-                    local_rank, spu_world_size, communicator, parties
+                    local_rank, spu_world_size, communicator, parties, tag_prefix
                 )
             else:
                 return self._create_mem_link(local_rank, spu_world_size)
@@ -282,6 +283,22 @@ class SPUState(DialectState):
         if runtime_cache_key in self._runtimes:
             return self._runtimes[runtime_cache_key]
 
+        # Links that run over the same communicator need separate tags.  All
+        # parties of a link must agree on them (unlike link_cache_key, which
+        # contains the local rank).
+        tag_prefix = "spu"
+        if channel_parties is not None:
+            tag_prefix = "-".join(
+                str(x)
+                for x in (
+                    "spu",
+                    config.protocol,
+                    config.field,
+                    config.fxp_fraction_bits,
+                    *channel_parties,
+                )
+            )
+
         # Unified path: get-or-create template link, then spawn for isolation
         template_link = self._get_template_link(
             link_cache_key,
@@ -291,6 +308,7 @@ class SPUState(DialectState):
             parties,
             spu_endpoints,
             brpc_config,
+            tag_prefix,
         )
         link = template_link.spawn()
 
@@ -318,6 +336,7 @@ class SPUState(DialectState):
         spu_world_size: int,
         communicator: Any,
         parties: list[int],
+        tag_prefix: str = "spu",
     ) -> libspu.link.Context:
         """Create link using custom channels (reuse v2 communicator).
 
@@ -326,6 +345,7 @@ class SPUState(DialectState):
             spu_world_size: Number of SPU parties
             communicator: v2 communicator (ThreadCommunicator/HttpCommunicator)
             parties: List of global ranks for SPU parties (ordered by local rank)
+            tag_prefix: Prefix of all message tags of this link
 
         Returns:
             libspu link context using BaseChannel adapters
@@ -343,7 +363,9 @@ class SPUState(DialectState):
                 channel = None
             else:
                 # Create channel to peer
-                channel = BaseChannel(communicator, global_rank, peer_global_rank)
+                channel = BaseChannel(
+                    communicator, global_rank, peer_global_rank, tag_prefix
+                )
             channels.append(channel)
 
         # Create link descriptor
-- 
2.43.0


From 47ef9ff3fa21e87d585ac1d67908b40d8292a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 19/59] fix: run eagerly bound operations that have no outputs

An operation bound for its effect only (a party call whose body returns
nothing) was traced but never executed in eager mode.
---
 mplang/runtime/interpreter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index fee11f7..572c82b 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -722,8 +722,9 @@ class Interpreter(AbstractInterpreter):
             for obj, _ in ctx._captured_vars.values()
         ]
 
-        # Execute graph (may have 0 outputs if all were immediates)
-        if graph.outputs:
+        # Execute graph (may have 0 outputs if all were immediates, or if the
+        # primitive is bound for its effects only)
+        if graph.operations:
             result_runtime_list = self.evaluate_graph(graph, inputs_list)
         else:
             result_runtime_list = []
-- 
2.43.0


From e767aecd4bad6ec1cf01310e65012044776ff718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 20/59] fix: drop the driver context also when the job file
 fails to load

---
 mplang/cli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mplang/cli.py b/mplang/cli.py
index 649ac40..160f793 100644
--- a/mplang/cli.py
+++ b/mplang/cli.py
@@ -365,10 +365,9 @@ def cmd_run(args: argparse.Namespace) -> None:
     push_context(driver)
     # REMOVED: set_global_cluster(cluster)
 
-    module = load_user_module(args.file)
-    entry = resolve_entry(module, args.entry)
-
     try:
+        module = load_user_module(args.file)
+        entry = resolve_entry(module, args.entry)
         # Entry function doesn't need driver parameter - it uses context
         result = entry(*args.args)
         if result is not None:
-- 
2.43.0


From 710ba9ed21ed703014baf9cdfe688b28fb161a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 21/59] fix: close table readers when opening or combining them
 fails

---
 mplang/backends/table_impl.py | 39 ++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 415d73d..cd7525f 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -507,8 +507,12 @@ class FileTableSource(TableSource):
             case _:
                 raise ValueError(f"Unsupported format: {self.format}")
 
-        if self.schema and self.schema != reader.schema:
-            reader = reader.cast(self.schema)
+        try:
+            if self.schema and self.schema != reader.schema:
+                reader = reader.cast(self.schema)
+        except Exception:
+            reader.close()
+            raise
 
         return TableReader(reader, num_rows=num_rows, batch_size=batch_size)
 
@@ -915,17 +919,22 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
         resolved = f"{final}.{uuid.uuid4().hex}.tmp"
         batch_size = DEFAULT_BATCH_SIZE if len(tables) > 1 else -1
         readers: list[TableReader] = []
-        for t in tables:
-            data = t.unwrap()
-            readers.append(
-                data.open(batch_size)
-                if isinstance(data, TableSource)
-                else TableReader(data)
-            )
+        try:
+            for t in tables:
+                data = t.unwrap()
+                readers.append(
+                    data.open(batch_size)
+                    if isinstance(data, TableSource)
+                    else TableReader(data)
+                )
 
-        reader: BatchReader = (
-            readers[0] if len(readers) == 1 else MultiTableReader(readers)
-        )
+            reader: BatchReader = (
+                readers[0] if len(readers) == 1 else MultiTableReader(readers)
+            )
+        except Exception:
+            for r in readers:
+                r.close()
+            raise
 
         import pyarrow.csv as pa_csv
         import pyarrow.parquet as pa_pq
@@ -977,8 +986,10 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
                 for batch in reader:
                     writer.write_batch(batch)
             finally:
-                reader.close()
-                writer.close()
+                try:
+                    reader.close()
+                finally:
+                    writer.close()
             os.replace(resolved, final)
         except Exception as e:
             _safe_remove_file(resolved)
-- 
2.43.0


From b61a6a0c24a09e3b6e7c582036d037f1b1f9a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:15 +0000
Subject: [PATCH 22/59] fix: remove the temporary file and stop the worker's
 resources when an error interrupts their use

---
 mplang/backends/simp_worker/http.py | 10 ++++++----
 mplang/backends/util.py             |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 1624039..9a75571 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -940,10 +940,12 @@ def create_worker_app(
 
     @asynccontextmanager
     async def lifespan(app: FastAPI) -> AsyncIterator[None]:
-        yield
-        await asyncio.to_thread(infra.shutdown)
-        await asyncio.to_thread(comm.shutdown)
-        await asyncio.to_thread(exec_pool.shutdown, wait=True)
+        try:
+            yield
+        finally:
+            await asyncio.to_thread(infra.shutdown)
+            await asyncio.to_thread(comm.shutdown)
+            await asyncio.to_thread(exec_pool.shutdown, wait=True)
 
     app = FastAPI(title=f"SIMP Worker {rank}", lifespan=lifespan)
 
diff --git a/mplang/backends/util.py b/mplang/backends/util.py
index 404ec09..8eda76b 100644
--- a/mplang/backends/util.py
+++ b/mplang/backends/util.py
@@ -93,10 +93,12 @@ def _refine_stablehlo(code: str, args: tuple[TensorLike, ...]) -> str:
 
     # Write the input MLIR to a temporary file
     with tempfile.NamedTemporaryFile(mode="w", suffix=".mlir", delete=False) as f:
-        f.write(code)
         input_file = f.name
 
     try:
+        with open(input_file, "w") as f:
+            f.write(code)
+
         # Run stablehlo-opt with the refine pipeline
         cmd = [
             "stablehlo-opt",
-- 
2.43.0


From 3b48ef2c96e134bc9230081b3592d0645e3b1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:15 +0000
Subject: [PATCH 23/59] fix: table.write returns the table it is declared to
 return

---
 mplang/backends/table_impl.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index cd7525f..82d297a 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -899,11 +899,16 @@ class MultiTableReader(BatchReader):
 
 
 @table.write_p.def_impl
-def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) -> None:
+def write_impl(
+    interpreter: Interpreter, op: Operation, *tables: TableValue
+) -> TableValue:
     """Write table to file.
 
     Supported formats: parquet, csv, json
 
+    Returns the written table: the input itself, or the combination of several
+    inputs, backed by the written file.
+
     For LazyTable, performs streaming writes when supported.
     For regular Tables, performs direct writes.
     """
@@ -912,7 +917,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
 
     fmt = _infer_format(path, format_hint)
 
-    def _do_write(dest: str) -> None:
+    def _do_write(dest: str) -> TableValue:
         # Write next to the destination and rename, so that the destination
         # only ever holds a complete file.
         final = os.path.realpath(dest)
@@ -995,10 +1000,14 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             _safe_remove_file(resolved)
             raise e
 
+        if len(tables) == 1:
+            return tables[0]
+        return _wrap(FileTableSource(path=final, format=fmt, schema=reader.schema))
+
     if interpreter.store:
         local_path = _staging_path(interpreter, path)
         os.makedirs(os.path.dirname(local_path), exist_ok=True)
-        _do_write(local_path)
+        written = _do_write(local_path)
         interpreter.store.upload(local_path, path)
-    else:
-        _do_write(path)
+        return written
+    return _do_write(path)
-- 
2.43.0


From 4e85958a625ffda51af9e5345f30db78b9331f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 24/59] fix: KEM key generation honours the requested suite and
 refuses unsupported ones

---
 mplang/backends/crypto_impl.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/mplang/backends/crypto_impl.py b/mplang/backends/crypto_impl.py
index 859a80b..48d09bf 100644
--- a/mplang/backends/crypto_impl.py
+++ b/mplang/backends/crypto_impl.py
@@ -550,9 +550,10 @@ class SymmetricKeyValue(Value):
 
 @crypto.kem_keygen_p.def_impl
 def kem_keygen_impl(
-    interpreter: Interpreter, op: Operation, suite: str = "x25519"
+    interpreter: Interpreter, op: Operation
 ) -> tuple[PrivateKeyValue, PublicKeyValue]:
     """Generate a KEM key pair."""
+    suite: str = op.attrs.get("suite", "x25519")
     if suite == "x25519":
         from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
 
@@ -576,13 +577,7 @@ def kem_keygen_impl(
             PublicKeyValue(suite=suite, key_bytes=pk_bytes),
         )
     else:
-        # Fallback to random bytes for unknown suites
-        sk_bytes = os.urandom(32)
-        pk_bytes = os.urandom(32)
-        return (
-            PrivateKeyValue(suite=suite, key_bytes=sk_bytes),
-            PublicKeyValue(suite=suite, key_bytes=pk_bytes),
-        )
+        raise NotImplementedError(f"KEM suite '{suite}' is not supported")
 
 
 @crypto.kem_derive_p.def_impl
@@ -607,11 +602,7 @@ def kem_derive_impl(
 
         return SymmetricKeyValue(suite=suite, key_bytes=shared_secret)
     else:
-        # Fallback for unknown suites: XOR the key bytes (not cryptographically secure)
-        sk_bytes = private_key.key_bytes
-        pk_bytes = public_key.key_bytes
-        secret = bytes(a ^ b for a, b in zip(sk_bytes, pk_bytes, strict=True))
-        return SymmetricKeyValue(suite=suite, key_bytes=secret)
+        raise NotImplementedError(f"KEM suite '{suite}' is not supported")
 
 
 @crypto.hkdf_p.def_impl
-- 
2.43.0


From 5c2198195644cc7c9c09d0a5d1e86ca7fa635d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 25/59] fix: load the PHE backend with the default backends

---
 mplang/backends/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mplang/backends/__init__.py b/mplang/backends/__init__.py
index 0cc062f..41d9926 100644
--- a/mplang/backends/__init__.py
+++ b/mplang/backends/__init__.py
@@ -50,6 +50,7 @@ def load_builtins() -> None:
         "mplang.backends.store_impl",
         "mplang.backends.func_impl",
         "mplang.backends.field_impl",
+        "mplang.backends.phe_impl",
     ]
 
     for module_name in builtin_backends:
-- 
2.43.0


From 97d6730a74c29b43e4c8e04ee64647de822ce32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 26/59] fix: conditional and loop predicates of party values
 must be scalar

---
 mplang/dialects/simp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 60e7133..8751c02 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -55,7 +55,10 @@ VERIFY_UNIFORM_DEFAULT = True
 
 def _validate_scalar_predicate(value: el.graph.Value, context: str) -> None:
     """Validate that a graph value represents a scalar predicate."""
-    shape = getattr(value.type, "shape", None)
+    value_type = value.type
+    if isinstance(value_type, elt.MPType):
+        value_type = value_type.value_type
+    shape = getattr(value_type, "shape", None)
     if shape is not None and shape != ():
         raise TypeError(
             f"{context} must be scalar, got shape {shape} with type {value.type}"
-- 
2.43.0


From 4fed50271fca24fad8d3b4f84119d203d2997730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 27/59] fix: pcall_static checks the known holders even when
 another operand is dynamic

---
 mplang/dialects/simp.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 8751c02..a8732aa 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -78,19 +78,16 @@ def _deduce_parties(types: Sequence[elt.BaseType]) -> tuple[int, ...] | None:
     if not types:
         return None
 
-    # Extract parties from MPType objects
+    # Extract known parties from MPType objects (dynamic operands constrain nothing)
     parties_list = []
     for tp in types:
-        if isinstance(tp, elt.MPType):
+        if isinstance(tp, elt.MPType) and tp.parties is not None:
             parties_list.append(tp.parties)
 
     if not parties_list:
         return None
 
-    if any(p is None for p in parties_list):
-        return None
-
-    # Intersect all party sets (we know all parties are not None here)
+    # Intersect all known party sets
     first_parties = parties_list[0]
     assert first_parties is not None
     current = set(first_parties)
-- 
2.43.0


From 2738ca3a776440559d6b7cbd0cecd7c419ac1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 28/59] fix: converge checks known holders for overlap even
 when another input is dynamic

---
 mplang/dialects/simp.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index a8732aa..5f205a5 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -678,21 +678,21 @@ def _converge_ae(in_types: list[elt.BaseType], *, mask: int = -1) -> elt.BaseTyp
     # Deduce output parties
     parties_list = [mt.parties for mt in mp_types]
 
+    # Inputs whose parties are known must be disjoint
+    for i, p1 in enumerate(parties_list):
+        for j, p2 in enumerate(parties_list[i + 1 :], i + 1):
+            if p1 is not None and p2 is not None:
+                if set(p1) & set(p2):
+                    raise ValueError(
+                        f"converge requires disjoint parties, inputs {i} and {j} "
+                        f"overlap: {set(p1) & set(p2)}"
+                    )
+
     if any(p is None for p in parties_list):
         # Dynamic case: propagate None
         output_parties = None
     else:
-        # Static case: check disjoint and union
-        for i, p1 in enumerate(parties_list):
-            for j, p2 in enumerate(parties_list[i + 1 :], i + 1):
-                if p1 is not None and p2 is not None:
-                    if set(p1) & set(p2):
-                        raise ValueError(
-                            f"converge requires disjoint parties, inputs {i} and {j} "
-                            f"overlap: {set(p1) & set(p2)}"
-                        )
-
-        # Union all parties
+        # Static case: union all parties
         all_parties: set[int] = set()
         for p in parties_list:
             if p is not None:
-- 
2.43.0


From 3215131fa37d7c60596b7ce44e0c3d5b6a993f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 29/59] fix: while_loop rejects constant conditions and bodies
 that change the structure of the state

---
 mplang/dialects/simp.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 5f205a5..f031b8d 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -300,10 +300,14 @@ def _while_loop_trace(
             "while_loop cond_fn must return exactly one output, "
             f"got {cond_output_count}"
         )
-    if cond_traced.out_var_pos:
-        _validate_scalar_predicate(
-            cond_traced.graph.outputs[0], "while_loop cond_fn output"
+    if not cond_traced.out_var_pos:
+        raise TypeError(
+            "while_loop cond_fn must return a Variable, got a constant "
+            f"{cond_traced.out_imms[0]!r}"
         )
+    _validate_scalar_predicate(
+        cond_traced.graph.outputs[0], "while_loop cond_fn output"
+    )
 
     body_output_count = len(body_traced.out_var_pos) + len(body_traced.out_imms)
     if body_output_count != state_count:
@@ -318,6 +322,11 @@ def _while_loop_trace(
             "(no immediates allowed in loop state), "
             f"expected {state_count} Variables, got {len(body_outputs)}"
         )
+    if body_traced.out_tree != state_treedef:
+        raise TypeError(
+            "while_loop body_fn must return the same structure as init state: "
+            f"{state_treedef} expected, got {body_traced.out_tree}"
+        )
     for idx, (out_val, state_obj) in enumerate(
         zip(body_outputs, state_trace_objs, strict=True)
     ):
-- 
2.43.0


From 20da20cf1f8597f46369a20a557927e31f92cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 30/59] fix: crypto operations reject operands of the wrong
 role, suite or curve when traced

---
 mplang/dialects/crypto.py | 64 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/mplang/dialects/crypto.py b/mplang/dialects/crypto.py
index 68b3897..6caad3a 100644
--- a/mplang/dialects/crypto.py
+++ b/mplang/dialects/crypto.py
@@ -211,6 +211,33 @@ random_bytes_p = el.Primitive[el.Object]("crypto.random_bytes")
 # ==============================================================================
 
 
+def _require_type(
+    opcode: str, operand: str, got: elt.BaseType, *expected: type[elt.BaseType]
+) -> None:
+    """Reject an operand whose type is not one of the expected ones."""
+    if not isinstance(got, expected):
+        names = " or ".join(t.__name__ for t in expected)
+        raise TypeError(f"{opcode} expects {operand} to be {names}, got {got}")
+
+
+def _require_same(opcode: str, what: str, lhs: Any, rhs: Any) -> None:
+    """Reject operands that disagree on a parameter (curve, suite, type)."""
+    if lhs != rhs:
+        raise TypeError(f"{opcode}: {what} mismatch: {lhs} vs {rhs}")
+
+
+def _require_bytes(opcode: str, operand: str, got: elt.BaseType) -> None:
+    """Reject an operand that is not a tensor of bytes."""
+    if not isinstance(got, elt.TensorType) or got.element_type != elt.u8:
+        raise TypeError(f"{opcode} expects {operand} to be Tensor[u8], got {got}")
+
+
+def _require_key(opcode: str, operand: str, got: elt.BaseType) -> None:
+    """Reject an operand that is neither a symmetric key nor raw key bytes."""
+    if not isinstance(got, SymmetricKeyType):
+        _require_bytes(opcode, operand, got)
+
+
 @generator_p.def_abstract_eval
 def _generator_ae(curve: str = "secp256k1") -> PointType:
     return PointType(curve)
@@ -218,16 +245,25 @@ def _generator_ae(curve: str = "secp256k1") -> PointType:
 
 @mul_p.def_abstract_eval
 def _mul_ae(point: PointType, scalar: ScalarType) -> PointType:
+    _require_type("ec_mul", "point", point, PointType)
+    _require_type("ec_mul", "scalar", scalar, ScalarType)
+    _require_same("ec_mul", "curve", point.curve, scalar.curve)
     return PointType(point.curve)
 
 
 @add_p.def_abstract_eval
 def _add_ae(p1: PointType, p2: PointType) -> PointType:
+    _require_type("ec_add", "p1", p1, PointType)
+    _require_type("ec_add", "p2", p2, PointType)
+    _require_same("ec_add", "curve", p1.curve, p2.curve)
     return PointType(p1.curve)
 
 
 @sub_p.def_abstract_eval
 def _sub_ae(p1: PointType, p2: PointType) -> PointType:
+    _require_type("ec_sub", "p1", p1, PointType)
+    _require_type("ec_sub", "p2", p2, PointType)
+    _require_same("ec_sub", "curve", p1.curve, p2.curve)
     return PointType(p1.curve)
 
 
@@ -235,7 +271,9 @@ def _sub_ae(p1: PointType, p2: PointType) -> PointType:
 def _pt_to_bytes_ae(point: elt.BaseType) -> elt.TensorType:
     if isinstance(point, elt.TensorType):
         # Vectorized behavior: Tensor[Point, shape] -> Tensor[u8, shape + (65,)]
+        _require_type("ec_point_to_bytes", "point", point.element_type, PointType)
         return elt.TensorType(elt.u8, (*point.shape, 65))
+    _require_type("ec_point_to_bytes", "point", point, PointType)
     return elt.TensorType(elt.u8, (65,))
 
 
@@ -248,12 +286,15 @@ def _random_scalar_ae(curve: str = "secp256k1") -> ScalarType:
 def _scalar_from_int_ae(
     val: elt.TensorType | elt.IntegerType, curve: str = "secp256k1"
 ) -> ScalarType:
+    elem = val.element_type if isinstance(val, elt.TensorType) else val
+    _require_type("ec_scalar_from_int", "val", elem, elt.IntegerType)
     return ScalarType(curve)
 
 
 @hash_p.def_abstract_eval
 def _hash_ae(data: elt.BaseType) -> elt.TensorType:
     # Strictly single output (blob hash)
+    _require_type("hash", "data", data, elt.TensorType)
     return elt.TensorType(elt.u8, (32,))
 
 
@@ -291,6 +332,7 @@ def _sym_encrypt_ae(
     Returns:
         Ciphertext as dynamic-length uint8 tensor
     """
+    _require_key("sym_encrypt", "key", key)
     # Dynamic shape for ciphertext
     # algo validation is done at backend impl, not here
     return elt.TensorType(elt.u8, (-1,))
@@ -315,6 +357,8 @@ def _sym_decrypt_ae(
     Returns:
         Decrypted plaintext with type matching target_type
     """
+    _require_key("sym_decrypt", "key", key)
+    _require_bytes("sym_decrypt", "ciphertext", ciphertext)
     # algo validation is done at backend impl, not here
     return target_type
 
@@ -323,6 +367,7 @@ def _sym_decrypt_ae(
 def _select_ae(
     cond: elt.BaseType, true_val: elt.BaseType, false_val: elt.BaseType
 ) -> elt.BaseType:
+    _require_same("select", "operand type", true_val, false_val)
     return true_val
 
 
@@ -335,8 +380,20 @@ def _kem_keygen_ae(suite: str = "x25519") -> tuple[PrivateKeyType, PublicKeyType
 def _kem_derive_ae(
     private_key: PrivateKeyType, public_key: PublicKeyType
 ) -> SymmetricKeyType:
-    suite = getattr(private_key, "suite", "x25519")
-    return SymmetricKeyType(suite)
+    # An attested key (tee.attest) is a verified KEM public key.
+    from mplang.dialects.tee import AttestedKeyType
+
+    _require_type("kem_derive", "private_key", private_key, PrivateKeyType)
+    _require_type(
+        "kem_derive", "public_key", public_key, PublicKeyType, AttestedKeyType
+    )
+    peer_suite = (
+        public_key.curve
+        if isinstance(public_key, AttestedKeyType)
+        else public_key.suite
+    )
+    _require_same("kem_derive", "suite", private_key.suite, peer_suite)
+    return SymmetricKeyType(private_key.suite)
 
 
 @hkdf_p.def_abstract_eval
@@ -357,6 +414,8 @@ def _hkdf_ae(
         TypeError: If info or hash_algo is not a string
         ValueError: If info is empty (required for domain separation per NIST)
     """
+    _require_key("hkdf", "secret", secret)
+
     # Validate info and hash_algo at trace time
     if not isinstance(info, str) or not info:
         raise ValueError(
@@ -664,6 +723,7 @@ bytes_to_point_p = el.Primitive[el.Object]("crypto.ec_bytes_to_point")
 
 @bytes_to_point_p.def_abstract_eval
 def _bytes_to_point_ae(b: elt.TensorType) -> PointType:
+    _require_bytes("ec_bytes_to_point", "b", b)
     return PointType("secp256k1")
 
 
-- 
2.43.0


From 03c38e3465a839199d10f7c25eea4bd7493a131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 31/59] fix: attest/get_measurement accept only quotes, and
 attest checks the key's curve

---
 mplang/backends/tee_impl.py |  7 +++++++
 mplang/dialects/tee.py      | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/mplang/backends/tee_impl.py b/mplang/backends/tee_impl.py
index 760d069..9315eb4 100644
--- a/mplang/backends/tee_impl.py
+++ b/mplang/backends/tee_impl.py
@@ -203,6 +203,13 @@ def _attest_impl(
     else:
         raise TypeError(f"Expected MockQuoteValue or BytesValue, got {type(quote)}")
 
+    # The bound key must be of the curve the program was typed with
+    expected_curve = op.attrs.get("expected_curve", "x25519")
+    if mock_quote.suite != expected_curve:
+        raise ValueError(
+            f"Quote binds a '{mock_quote.suite}' key, expected '{expected_curve}'"
+        )
+
     # Return a real PublicKeyValue that can be used directly with kem_derive
     return PublicKeyValue(
         suite=mock_quote.suite,
diff --git a/mplang/dialects/tee.py b/mplang/dialects/tee.py
index bfa4fac..7e016c0 100644
--- a/mplang/dialects/tee.py
+++ b/mplang/dialects/tee.py
@@ -238,7 +238,14 @@ def _attest_ae(
 
     Returns:
         AttestedKeyType containing the verified public key
+
+    Raises:
+        TypeError: If quote is not a QuoteType
     """
+    if not isinstance(quote, QuoteType):
+        raise TypeError(
+            f"attest expects QuoteType (from tee.quote_gen), got {type(quote).__name__}"
+        )
     return AttestedKeyType(curve=expected_curve)
 
 
@@ -253,7 +260,15 @@ def _get_measurement_ae(
 
     Returns:
         MeasurementType containing the code measurement
+
+    Raises:
+        TypeError: If quote is not a QuoteType
     """
+    if not isinstance(quote, QuoteType):
+        raise TypeError(
+            f"get_measurement expects QuoteType (from tee.quote_gen), "
+            f"got {type(quote).__name__}"
+        )
     return MeasurementType()
 
 
-- 
2.43.0


From 77cb77598a173145b04426e62cb2b88b212869d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 32/59] fix: phe.decrypt rejects a private key of another
 scheme

---
 mplang/dialects/phe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/phe.py b/mplang/dialects/phe.py
index 5f437b9..82e092b 100644
--- a/mplang/dialects/phe.py
+++ b/mplang/dialects/phe.py
@@ -297,12 +297,15 @@ def _decrypt_ae(ct: CiphertextType, sk: KeyType) -> PlaintextType:
         Decrypted encoded integer
 
     Raises:
-        TypeError: If ct is not CiphertextType or sk is not PrivateKey
+        TypeError: If ct is not CiphertextType, sk is not PrivateKey, or their
+            schemes differ
     """
     if not isinstance(sk, KeyType) or sk.is_public:
         raise TypeError(f"Expected PrivateKey, got {sk}")
     if not isinstance(ct, CiphertextType):
         raise TypeError(f"Expected CiphertextType, got {ct}")
+    if ct.scheme != sk.scheme:
+        raise TypeError(f"Scheme mismatch: {ct} vs {sk}")
     # We assume it decrypts to i64 (standard encoded integer)
     return PlaintextType(bitwidth=64)
 
-- 
2.43.0


From 3d58fe321c09cadffa6a28bc38cdd87b1278f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 33/59] fix: spu.reconstruct checks every share, not only the
 first

---
 mplang/dialects/spu.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mplang/dialects/spu.py b/mplang/dialects/spu.py
index 63b7449..71e3bc9 100644
--- a/mplang/dialects/spu.py
+++ b/mplang/dialects/spu.py
@@ -270,6 +270,11 @@ def _reconstruct_ae(*shares: elt.SSType, config: SPUConfig) -> elt.TensorType:
         raise TypeError(f"reconstruct expects SSType shares, got {first}")
     if not isinstance(first.pt_type, elt.TensorType):
         raise TypeError(f"reconstruct expects SS[Tensor], got {first}")
+    for share in shares[1:]:
+        if share != first:
+            raise TypeError(
+                f"reconstruct expects shares of one value, got {first} and {share}"
+            )
     # Return the underlying plaintext type
     return first.pt_type
 
-- 
2.43.0


From fb3cd799244bd4adf3df40d949f5c48fd1b44a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 34/59] fix: bfv operations reject operands of different
 polynomial degrees

---
 mplang/dialects/bfv.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/mplang/dialects/bfv.py b/mplang/dialects/bfv.py
index 9eb96f2..16edb38 100644
--- a/mplang/dialects/bfv.py
+++ b/mplang/dialects/bfv.py
@@ -254,6 +254,19 @@ class EncoderType(elt.BaseType):
 # --- Key Management
 # ==============================================================================
 
+def _degree(t: Any) -> int:
+    """Polynomial modulus degree (number of SIMD slots) a BFV type is bound to."""
+    if isinstance(t, (PlaintextType, CiphertextType)):
+        return t.vector_type.size
+    return cast(int, t.poly_modulus_degree)
+
+
+def _check_same_degree(lhs: Any, rhs: Any) -> None:
+    """Reject operands created for different polynomial modulus degrees."""
+    if _degree(lhs) != _degree(rhs):
+        raise TypeError(f"poly_modulus_degree mismatch: {lhs} vs {rhs}")
+
+
 keygen_p = el.Primitive[tuple[el.Object, el.Object]]("bfv.keygen")
 make_relin_keys_p = el.Primitive[el.Object]("bfv.make_relin_keys")
 make_galois_keys_p = el.Primitive[el.Object]("bfv.make_galois_keys")
@@ -340,6 +353,10 @@ def _infer_batch_encode_output_types(
     if not isinstance(tensor, elt.TensorType):
         raise TypeError(f"Expected Tensor input, got {tensor}")
 
+    if not isinstance(key, KeyType):
+        raise TypeError(f"Expected BFV key, got {key}")
+    _check_same_degree(encoder, key)
+
     if tensor.rank != 2:
         raise ValueError(
             f"BFV batch_encode input must be 2D Tensor, got rank {tensor.rank}"
@@ -405,6 +422,7 @@ def _decode_ae(plain: PlaintextType, encoder: EncoderType) -> elt.TensorType:
         raise TypeError(f"Expected BFVEncoder, got {encoder}")
     if not isinstance(plain, PlaintextType):
         raise TypeError(f"Expected BFVPlaintext, got {plain}")
+    _check_same_degree(plain, encoder)
 
     # Returns a 1D tensor of i64 (default assumption for BFV)
     # The shape is technically (slots,), but we might not know slots exactly here
@@ -426,6 +444,7 @@ def _encrypt_ae(plain: PlaintextType, pk: KeyType) -> CiphertextType:
         raise TypeError(f"Expected BFVPlaintext, got {plain}")
     if not isinstance(pk, KeyType) or pk.kind != "Public":
         raise TypeError(f"Expected BFV PublicKey, got {pk}")
+    _check_same_degree(plain, pk)
     return CiphertextType(plain.vector_type)
 
 
@@ -435,6 +454,7 @@ def _decrypt_ae(ct: CiphertextType, sk: KeyType) -> PlaintextType:
         raise TypeError(f"Expected BFVCiphertext, got {ct}")
     if not isinstance(sk, KeyType) or sk.kind != "Private":
         raise TypeError(f"Expected BFV PrivateKey, got {sk}")
+    _check_same_degree(ct, sk)
     return PlaintextType(ct.vector_type)
 
 
@@ -458,6 +478,8 @@ def _check_arithmetic_operands(lhs: Any, rhs: Any) -> None:
     # At least one must be ciphertext
     if not (isinstance(lhs, CiphertextType) or isinstance(rhs, CiphertextType)):
         raise TypeError("At least one operand must be a Ciphertext")
+    if lhs.vector_type != rhs.vector_type:
+        _check_same_degree(lhs, rhs)
 
 
 @add_p.def_abstract_eval
@@ -490,6 +512,7 @@ def _relinearize_ae(ct: CiphertextType, rk: KeyType) -> CiphertextType:
         raise TypeError(f"Expected BFVCiphertext, got {ct}")
     if not isinstance(rk, KeyType) or rk.kind != "Relin":
         raise TypeError(f"Expected BFV RelinKeys, got {rk}")
+    _check_same_degree(ct, rk)
     return CiphertextType(ct.vector_type)
 
 
@@ -506,6 +529,7 @@ def _rotate_ae(ct: CiphertextType, gk: KeyType, *, steps: int) -> CiphertextType
         raise TypeError(f"Expected BFVCiphertext, got {ct}")
     if not isinstance(gk, KeyType) or gk.kind != "Galois":
         raise TypeError(f"Expected BFV GaloisKeys, got {gk}")
+    _check_same_degree(ct, gk)
     return CiphertextType(ct.vector_type)
 
 
@@ -519,6 +543,7 @@ def _rotate_columns_ae(ct: CiphertextType, gk: KeyType) -> CiphertextType:
         raise TypeError(f"Expected BFVCiphertext, got {ct}")
     if not isinstance(gk, KeyType) or gk.kind != "Galois":
         raise TypeError(f"Expected BFV GaloisKeys, got {gk}")
+    _check_same_degree(ct, gk)
     return CiphertextType(ct.vector_type)
 
 
-- 
2.43.0


From beff35f56f3cb5f20dc885e657614d9f325a58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:08 +0000
Subject: [PATCH 35/59] fix: phe.encode rejects values that are already encoded
 or encrypted

---
 mplang/dialects/phe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mplang/dialects/phe.py b/mplang/dialects/phe.py
index 82e092b..a185429 100644
--- a/mplang/dialects/phe.py
+++ b/mplang/dialects/phe.py
@@ -229,6 +229,8 @@ def _encode_ae(value: elt.ScalarType, encoder: elt.CustomType) -> PlaintextType:
         raise TypeError(f"Expected Encoder, got {encoder}")
     if not isinstance(value, elt.ScalarType):
         raise TypeError(f"Can only encode ScalarType, got {value}")
+    if isinstance(value, (PlaintextType, elt.EncryptedTrait)):
+        raise TypeError(f"Can only encode raw scalars, got {value}")
     # Return sufficient integer type for encoded values
     return PlaintextType(bitwidth=64)
 
-- 
2.43.0


From 121e933157d4e6af2f71b89b1b34aef94ffc67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 36/59] fix: refuse to run a function on another device's
 values when auto-transfer is off

---
 mplang/libs/device/api.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mplang/libs/device/api.py b/mplang/libs/device/api.py
index 89d3de0..a763a05 100644
--- a/mplang/libs/device/api.py
+++ b/mplang/libs/device/api.py
@@ -247,6 +247,14 @@ def _device_run(
                 return obj
 
         args, kwargs = tree_map(trans, (args, kwargs))
+    else:
+        for obj in tree_flatten((args, kwargs))[0]:
+            if is_device_obj(obj) and get_dev_attr(obj) != dev_id:
+                raise DeviceError(
+                    f"Argument on device '{get_dev_attr(obj)}' used on '{dev_id}', "
+                    f"but auto-transfer is disabled (g_auto_trans=False). "
+                    f"Please use put() to move it first."
+                )
 
     if dev_info.kind.upper() == "SPU":
         return _device_run_spu(dev_info, fn, *args, **kwargs)
-- 
2.43.0


From dc6528c6fad754ae2c0197a3eca758657a29ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 37/59] fix: refuse an artifact whose graph digest is blank
 instead of skipping the integrity check

---
 mplang/tool/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/tool/program.py b/mplang/tool/program.py
index d38a31e..4a8626d 100644
--- a/mplang/tool/program.py
+++ b/mplang/tool/program.py
@@ -143,7 +143,7 @@ def _validate_program(program: CompiledProgram) -> None:
         )
 
     actual_digest = compute_graph_digest(program.graph)
-    if program.graph_digest and program.graph_digest != actual_digest:
+    if program.graph_digest != actual_digest:
         raise ValueError(
             "Graph digest mismatch: "
             f"expected={program.graph_digest}, actual={actual_digest}"
-- 
2.43.0


From 16b8b55d749ded60627882e009b5068def8eca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 38/59] fix: the fallback of the seed expansion is AES as in
 the native kernel

Without the native library the pseudorandom generator of the protocols was
NumPy's PCG64, which is not cryptographic and does not agree with a party
that has the library.
---
 mplang/backends/field_impl.py | 15 +--------------
 mplang/kernels/py_kernels.py  | 28 +++++++++++++++++-----------
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index a73c8e6..30928a7 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -334,8 +334,6 @@ def _aes_expand_impl_prim(
     length = op.attrs["length"]
     seeds = _unwrap(seeds_val)
 
-    # JAX PRG Fallback crashed. Switching to NumPy PRG.
-
     # Check if bytes
     if seeds.dtype == np.uint8 and seeds.shape[-1] == 16:
         seeds = seeds.view(np.uint64)
@@ -360,18 +358,7 @@ def _aes_expand_impl_prim(
         )
     else:
         # Slow Python Path (Fallback)
-        # Iterate and generate
-        for i in range(num_seeds):
-            # Seed from pair
-            s0 = int(seeds[i, 0])
-            s1 = int(seeds[i, 1])
-            seed_val = [s0, s1]
-
-            rng = np.random.default_rng(seed_val)
-            vals = rng.integers(
-                0, 0xFFFFFFFFFFFFFFFF, size=(length, 2), dtype=np.uint64
-            )
-            output[i] = vals
+        output = py_kernels.aes_expand(seeds, length)
 
     # Return as JAX array to keep downstream happy
     res_jax = jnp.array(output)
diff --git a/mplang/kernels/py_kernels.py b/mplang/kernels/py_kernels.py
index aa9ade6..f0f3e2b 100644
--- a/mplang/kernels/py_kernels.py
+++ b/mplang/kernels/py_kernels.py
@@ -22,9 +22,12 @@ significantly slower than the optimized C++ versions.
 from __future__ import annotations
 
 import numpy as np
+from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 
 from mplang.libs.mpc.common.constants import (
     GOLDEN_RATIO_64,
+    PI_FRAC_1,
+    PI_FRAC_2,
     SPLITMIX64_GAMMA_2,
     SPLITMIX64_GAMMA_3,
     SPLITMIX64_GAMMA_4,
@@ -339,10 +342,15 @@ def okvs_decode(
 # =============================================================================
 
 
+# Key of the native kernel (aes_128_expand in okvs.cpp): _mm_set_epi64x(hi, lo)
+_AES_FIXED_KEY = PI_FRAC_2.to_bytes(8, "little") + PI_FRAC_1.to_bytes(8, "little")
+
+
 def aes_expand(seeds: np.ndarray, length: int) -> np.ndarray:
     """Expand seeds to pseudorandom sequence.
 
-    This is a fallback using NumPy's PRNG instead of AES-NI.
+    Block j of seed s is AES-128(fixed key, s ^ j), exactly as in the native
+    kernel, so that parties with and without the native library agree.
 
     Args:
         seeds: Shape (num_seeds, 2) uint64 array of 128-bit seeds
@@ -351,16 +359,14 @@ def aes_expand(seeds: np.ndarray, length: int) -> np.ndarray:
     Returns:
         Shape (num_seeds, length, 2) uint64 array
     """
-    num_seeds = seeds.shape[0]
-    output = np.zeros((num_seeds, length, 2), dtype=np.uint64)
-
-    for i in range(num_seeds):
-        seed_val = [int(seeds[i, 0]), int(seeds[i, 1])]
-        rng = np.random.default_rng(seed_val)
-        output[i] = rng.integers(
-            0, 0xFFFFFFFFFFFFFFFF, size=(length, 2), dtype=np.uint64
-        )
-    return output
+    seeds = np.asarray(seeds, dtype=np.uint64)
+    blocks = np.repeat(seeds[:, None, :], length, axis=1)
+    blocks[:, :, 0] ^= np.arange(length, dtype=np.uint64)
+
+    # A fixed-key permutation applied block by block, not a mode of encryption
+    encryptor = Cipher(algorithms.AES(_AES_FIXED_KEY), modes.ECB()).encryptor()
+    out = encryptor.update(blocks.astype("<u8").tobytes()) + encryptor.finalize()
+    return np.frombuffer(out, dtype="<u8").astype(np.uint64).reshape(blocks.shape)
 
 
 # =============================================================================
-- 
2.43.0


From 5b5f63046f43831e5d09dd6a7e48c5b5e0c9dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 39/59] fix: the set hashes of the unbalanced PSI cannot be
 inverted

The table sent to the client held AES(fixed public key, mix(item, seed)).
The client knows the key and the seed, so it could decrypt cells of the table
that hold a single value and read the server's items off them.
---
 mplang/libs/mpc/psi/unbalanced.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mplang/libs/mpc/psi/unbalanced.py b/mplang/libs/mpc/psi/unbalanced.py
index d16d113..2abf2e6 100644
--- a/mplang/libs/mpc/psi/unbalanced.py
+++ b/mplang/libs/mpc/psi/unbalanced.py
@@ -106,8 +106,11 @@ def psi_unbalanced(
         Both Key and Value are derived using the session Seed to prevent
         pre-computation attacks.
 
-        Key:   K' = AES_Expand(H_key(Item, Seed))[:64bit]
-        Value: V  = AES_Expand(H_val(Item, Seed))[:128bit]
+        Key:   K' = H(mix_key(Item, Seed))[:64bit]
+        Value: V  = H(mix_val(Item, Seed))[:128bit]
+
+        H(x) = AES_Expand(x) ^ x (Davies-Meyer): the expansion alone is a public
+        permutation, which the receiver of the table could simply invert.
         """
 
         # Domain separator for Key derivation
@@ -133,19 +136,19 @@ def psi_unbalanced(
         key_seeds = tensor.run_jax(_prepare_key_seed, items, seed)
         h_keys_raw = field.aes_expand(key_seeds, 1)  # (N, 1, 2)
 
-        def _extract_key(h: Any) -> Any:
-            return h[:, 0, 0]
+        def _extract_key(h: Any, s: Any) -> Any:
+            return h[:, 0, 0] ^ s[:, 0]
 
-        keys = tensor.run_jax(_extract_key, h_keys_raw)
+        keys = tensor.run_jax(_extract_key, h_keys_raw, key_seeds)
 
         # Derive Values (ALSO using seed - fixes Value Oracle Attack)
         val_seeds = tensor.run_jax(_prepare_val_seed, items, seed)
         h_vals_raw = field.aes_expand(val_seeds, 1)  # (N, 1, 2)
 
-        def _flatten(h: Any) -> Any:
-            return h.reshape(h.shape[0], 2)
+        def _flatten(h: Any, s: Any) -> Any:
+            return h.reshape(h.shape[0], 2) ^ s
 
-        vals = tensor.run_jax(_flatten, h_vals_raw)
+        vals = tensor.run_jax(_flatten, h_vals_raw, val_seeds)
 
         return keys, vals
 
-- 
2.43.0


From 4aef67d1ec1c5bdb04e476e9da8676aab8d80abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 40/59] fix: the OT extension's seed expansion is one-way

The expansion is a permutation under a public key, so a party that knows one
128-bit block of the other's choice bits could invert it to the base seed and
read all the remaining choice bits.
---
 mplang/libs/mpc/ot/extension.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mplang/libs/mpc/ot/extension.py b/mplang/libs/mpc/ot/extension.py
index 86f4380..2099ba8 100644
--- a/mplang/libs/mpc/ot/extension.py
+++ b/mplang/libs/mpc/ot/extension.py
@@ -53,8 +53,11 @@ def prg_expand(seed_tensor: el.Object, length: int) -> el.Object:
     expanded_blocks = field.aes_expand(seeds_u64, m_blocks)  # (K, M, 2) u64
 
     # Convert blocks to bits
-    def _blocks_to_bits(blocks: Any) -> Any:
+    def _blocks_to_bits(blocks: Any, seeds: Any) -> Any:
         # blocks: (K, M, 2) u64
+        # Feed the seed forward (Davies-Meyer): the expansion alone is a public
+        # permutation, so one known block would give away the seed.
+        blocks = jnp.bitwise_xor(blocks, seeds[:, None, :])
         # unpackbits
         # view as u8
         bytes_view = blocks.view(jnp.uint8)  # (K, M, 16)
@@ -66,7 +69,7 @@ def prg_expand(seed_tensor: el.Object, length: int) -> el.Object:
         # Slice to exact length
         return bits_flat[:, :length]
 
-    return cast(el.Object, tensor.run_jax(_blocks_to_bits, expanded_blocks))
+    return cast(el.Object, tensor.run_jax(_blocks_to_bits, expanded_blocks, seeds_u64))
 
 
 def vec_hash(data_bytes: el.Object, domain_sep: int, num_rows: int) -> el.Object:
-- 
2.43.0


From e5fb53eff7a25f8038b9e25e9b0075cbe0b71a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:35 +0000
Subject: [PATCH 41/59] fix: the repr of a key value does not show the secret
 key

---
 mplang/backends/crypto_impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/crypto_impl.py b/mplang/backends/crypto_impl.py
index 48d09bf..eb18016 100644
--- a/mplang/backends/crypto_impl.py
+++ b/mplang/backends/crypto_impl.py
@@ -19,7 +19,7 @@ from __future__ import annotations
 import base64
 import hashlib
 import os
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any, ClassVar
 
 import coincurve
@@ -477,7 +477,7 @@ class PrivateKeyValue(Value):
     _serde_kind: ClassVar[str] = "crypto_impl.PrivateKeyValue"
 
     suite: str
-    key_bytes: bytes
+    key_bytes: bytes = field(repr=False)
 
     def to_json(self) -> dict[str, Any]:
         return {
@@ -532,7 +532,7 @@ class SymmetricKeyValue(Value):
     _serde_kind: ClassVar[str] = "crypto_impl.SymmetricKeyValue"
 
     suite: str
-    key_bytes: bytes
+    key_bytes: bytes = field(repr=False)
 
     def to_json(self) -> dict[str, Any]:
         return {
-- 
2.43.0


From 0f2b3992c5a18341dc56ed0e54637df9e0a530fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:01 +0000
Subject: [PATCH 42/59] fix: the public key of a PHE key pair was the private
 key object itself

---
 mplang/backends/phe_impl.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/phe_impl.py b/mplang/backends/phe_impl.py
index afe8632..dd9473b 100644
--- a/mplang/backends/phe_impl.py
+++ b/mplang/backends/phe_impl.py
@@ -30,10 +30,22 @@ from mplang.runtime.interpreter import Interpreter
 class PHEContext:
     """Wraps LightPHE context."""
 
-    def __init__(self, algorithm_name: str = "Paillier", key_size: int = 2048):
+    def __init__(
+        self,
+        algorithm_name: str = "Paillier",
+        key_size: int = 2048,
+        keys: dict[str, Any] | None = None,
+    ):
         # Normalize algorithm name (LightPHE expects capitalized names)
         normalized_name = algorithm_name.capitalize()
-        self.cs = LightPHE(algorithm_name=normalized_name, key_size=key_size)
+        self.cs = LightPHE(
+            algorithm_name=normalized_name, keys=keys, key_size=key_size
+        )
+
+    def make_public(self) -> PHEContext:
+        """Create a context with the same public key and no private key."""
+        keys = {k: v for k, v in self.cs.cs.keys.items() if k != "private_key"}
+        return PHEContext(algorithm_name=self.cs.algorithm_name, keys=keys)
 
     def encrypt(self, value: int) -> Ciphertext:
         return self.cs.encrypt(value)
@@ -83,7 +95,7 @@ def keygen_impl(
 
     ctx = PHEContext(algorithm_name=scheme, key_size=key_size)
 
-    return ctx, ctx
+    return ctx.make_public(), ctx
 
 
 @phe.create_encoder_p.def_impl
-- 
2.43.0


From 623b28cbca8fbbf8b554a7793812e7b458c0e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:02 +0000
Subject: [PATCH 43/59] fix: reject cluster descriptions with duplicate ranks,
 endpoints or members and unknown device kinds

---
 mplang/libs/device/cluster.py | 38 ++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index d951e95..373fb72 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -129,21 +129,49 @@ class ClusterSpec:
                     f"Device key '{key}' does not match device.name '{device.name}'"
                 )
 
+        # ranks address the workers: each of 0..world_size-1 exactly once
+        ranks = sorted(node.rank for node in self.nodes.values())
+        if ranks != list(range(len(self.nodes))):
+            raise ValueError(
+                f"Node ranks must be 0..{len(self.nodes) - 1}, each exactly once, "
+                f"got {ranks}"
+            )
+
+        # an endpoint belongs to one node
+        owners: dict[str, str] = {}
+        for node in self.nodes.values():
+            address = node.endpoint.split("://", 1)[-1].rstrip("/")
+            if address in owners:
+                raise ValueError(
+                    f"Nodes '{owners[address]}' and '{node.name}' share the "
+                    f"endpoint '{node.endpoint}'"
+                )
+            owners[address] = node.name
+
         # check all device members are valid nodes
-        node_names = set(self.nodes.keys())
         for device in self.devices.values():
             for member in device.members:
-                if member.name not in node_names:
+                if self.nodes.get(member.name) != member:
                     raise ValueError(
                         f"Device '{device.name}' has member '{member.name}' "
                         "which is not defined in nodes"
                     )
+            if len({member.name for member in device.members}) != len(device.members):
+                raise ValueError(f"Device '{device.name}' lists a member twice")
 
-        # ensure ppu devices have exactly one member
+        # check device kinds and the number of members each kind requires
         for device in self.devices.values():
-            if device.kind.lower() == "ppu" and len(device.members) != 1:
+            kind = device.kind.lower()
+            if kind not in ("ppu", "spu", "tee"):
+                raise ValueError(
+                    f"Device '{device.name}' has unknown kind '{device.kind}'"
+                )
+            if not device.members:
+                raise ValueError(f"Device '{device.name}' has no members")
+            if kind in ("ppu", "tee") and len(device.members) != 1:
                 raise ValueError(
-                    f"PPU device '{device.name}' must have exactly one member"
+                    f"{kind.upper()} device '{device.name}' must have exactly one "
+                    "member"
                 )
 
     def get_node(self, name: str) -> Node:
-- 
2.43.0


From ebb42f58f0c3121701501750efa2fd8947b5f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:02 +0000
Subject: [PATCH 44/59] fix: emit cluster nodes in rank order, which is how
 they are parsed back

---
 mplang/libs/device/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index 373fb72..55e8a72 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -199,7 +199,11 @@ class ClusterSpec:
         """Convert ClusterSpec to a dictionary."""
         return {
             "cluster_id": self.cluster_id,
-            "nodes": [node.to_dict() for node in self.nodes.values()],
+            # the position in this list is the rank
+            "nodes": [
+                node.to_dict()
+                for node in sorted(self.nodes.values(), key=lambda n: n.rank)
+            ],
             "devices": {
                 name: device.to_dict() for name, device in self.devices.items()
             },
-- 
2.43.0


From 233cb2c0a619c819af204521000daa1d4ef22cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:02 +0000
Subject: [PATCH 45/59] fix: reject reserved keys among the extra runtime
 properties of a node

---
 mplang/libs/device/cluster.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index 55e8a72..7bc3d3f 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -42,6 +42,13 @@ class RuntimeInfo:
     # with reserved keys: version, platform, op_bindings).
     extra: dict[str, Any] = field(default_factory=dict)
 
+    def __post_init__(self) -> None:
+        reserved = {"version", "platform", "op_bindings"} & self.extra.keys()
+        if reserved:
+            raise ValueError(
+                f"RuntimeInfo.extra must not contain reserved keys {sorted(reserved)}"
+            )
+
     def to_dict(self) -> dict[str, Any]:
         """Convert RuntimeInfo to a dictionary (stable field names)."""
         result = {
-- 
2.43.0


From 4cb3363298b96a70e2ecbb44194129ed989d8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:19 +0000
Subject: [PATCH 46/59] fix: derive secure-runtime hosts from endpoints with a
 scheme and honour --spu-endpoints

---
 mplang/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mplang/cli.py b/mplang/cli.py
index 160f793..c42a007 100644
--- a/mplang/cli.py
+++ b/mplang/cli.py
@@ -131,7 +131,7 @@ def build_endpoints(
                 spu_endpoints = {}
                 spu_base_port = args.spu_base_port or (ports[0] + 1000)
                 for i, node in enumerate(nodes):
-                    host = node["endpoint"].split(":")[0]
+                    host = node["endpoint"].split("://", 1)[-1].split(":")[0]
                     spu_endpoints[i] = f"{host}:{spu_base_port + i}"
                 break
     else:
@@ -150,6 +150,9 @@ def build_endpoints(
         ports = [int(ep.split(":")[-1]) for ep in endpoints]
         world_size = len(endpoints)
 
+    spu_endpoints = parse_spu_endpoints(
+        getattr(args, "spu_endpoints", None), world_size, spu_endpoints
+    )
     return endpoints, ports, world_size, spu_endpoints
 
 
-- 
2.43.0


From 39083109484a89e6d7bbaf022bceb1f480b1b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:56 +0000
Subject: [PATCH 47/59] fix: refuse a cluster description whose size differs
 from the number of workers

---
 mplang/backends/simp_driver/http.py | 5 +++++
 mplang/backends/simp_driver/mem.py  | 4 ++++
 mplang/dialects/simp.py             | 7 ++++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/simp_driver/http.py b/mplang/backends/simp_driver/http.py
index a792067..7ad57c7 100644
--- a/mplang/backends/simp_driver/http.py
+++ b/mplang/backends/simp_driver/http.py
@@ -153,6 +153,11 @@ def make_driver(endpoints: list[str], *, cluster_spec: Any = None) -> Interprete
         cluster_spec = ClusterSpec.simple(
             world_size=len(endpoints), endpoints=endpoints
         )
+    elif cluster_spec.world_size != len(endpoints):
+        raise ValueError(
+            f"Cluster has {cluster_spec.world_size} nodes, got {len(endpoints)} "
+            "endpoints"
+        )
 
     state = SimpHttpDriver(endpoints, cluster_spec=cluster_spec)
 
diff --git a/mplang/backends/simp_driver/mem.py b/mplang/backends/simp_driver/mem.py
index 1362ae7..8db4361 100644
--- a/mplang/backends/simp_driver/mem.py
+++ b/mplang/backends/simp_driver/mem.py
@@ -268,6 +268,10 @@ def make_simulator(
         from mplang.libs.device import ClusterSpec
 
         cluster_spec = ClusterSpec.simple(world_size)
+    elif cluster_spec.world_size != world_size:
+        raise ValueError(
+            f"Cluster has {cluster_spec.world_size} nodes, got world_size={world_size}"
+        )
 
     cluster = MemCluster(
         world_size=world_size,
diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index f031b8d..e3a3a9d 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -992,7 +992,12 @@ def make_compile_context(
     from mplang.runtime.interpreter import Interpreter
 
     if cluster_spec is not None:
-        world_size = world_size or len(cluster_spec.nodes)
+        if world_size is not None and world_size != len(cluster_spec.nodes):
+            raise ValueError(
+                f"Cluster has {len(cluster_spec.nodes)} nodes, got "
+                f"world_size={world_size}"
+            )
+        world_size = len(cluster_spec.nodes)
     elif world_size is not None:
         cluster_spec = CS.simple(world_size)
     else:
-- 
2.43.0


From 91b9d0066b5bb8e184494f9572974928e4c664f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 48/59] fix: refuse to re-bind a traced function to arguments
 of another structure or other constants

---
 mplang/edsl/tracer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 4e02449..9df0164 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -565,7 +565,22 @@ class TracedFunction:
             List of values corresponding to graph.inputs (may include InterpObject).
             The caller is responsible for unwrapping InterpObject at execution boundary.
         """
-        flat_args, _ = tree_flatten((args, kwargs))
+        flat_args, in_tree = tree_flatten((args, kwargs))
+        if in_tree != self.in_tree:
+            raise TypeError(
+                f"Arguments of {self.name} do not match its parameters: "
+                f"traced with {self.in_tree}, got {in_tree}"
+            )
+        var_pos = set(self.in_var_pos)
+        constants = [x for i, x in enumerate(flat_args) if i not in var_pos]
+        for given, traced in zip(constants, self.in_imms, strict=True):
+            if given is not traced and not (
+                type(given) is type(traced) and np.array_equal(given, traced)
+            ):
+                raise ValueError(
+                    f"{self.name} was traced with the constant {traced!r}, "
+                    f"got {given!r}"
+                )
 
         # Map to graph inputs using var positions from in_morph
         # Note: graph.inputs = [explicit_inputs...] + [captured_inputs...]
-- 
2.43.0


From 889bd3893feb5de2843d6b674a70b522377096b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 49/59] fix: the table a staged write of several inputs returns
 stays readable

---
 mplang/backends/table_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 82d297a..1732ed3 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -1009,5 +1009,8 @@ def write_impl(
         os.makedirs(os.path.dirname(local_path), exist_ok=True)
         written = _do_write(local_path)
         interpreter.store.upload(local_path, path)
+        if len(tables) > 1:
+            # Uploading moves the file the returned table reads from.
+            interpreter.store.download(path, local_path)
         return written
     return _do_write(path)
-- 
2.43.0


From 23c78ef1a930e831273c74d9a49eb13d5edcc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:52 +0000
Subject: [PATCH 50/59] fix: reading the rest of a table includes rows kept
 back for the next batch

---
 mplang/backends/table_impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 1732ed3..158e7cb 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -131,7 +131,12 @@ class TableReader(BatchReader):
         Returns:
             Complete table containing all remaining data
         """
-        return self._reader.read_all()
+        rest = self._reader.read_all()
+        if self._remain is not None:
+            # Rows already read, but not yet returned in a batch
+            rest = pa.Table.from_batches([self._remain, *rest.to_batches()])
+            self._remain = None
+        return rest
 
     def read_next_batch(self) -> pa.RecordBatch:
         """Read the next batch of records.
-- 
2.43.0


From 680d78ed9beebb9f3fbf0811b12ffab0d2ba4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:52 +0000
Subject: [PATCH 51/59] fix: stored files appear at their destination only when
 complete

---
 mplang/runtime/object_store.py | 38 ++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index a3526a3..cee47ed 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -187,8 +187,17 @@ class FileSystemBackend(StoreBackend):
     def put(self, key: str, value: Any) -> None:
         path = self._resolve_key(key)
         os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, "wb") as f:
-            pickle.dump(value, f)
+        # Write next to the object and rename, so that it is only ever replaced
+        # by a complete one.
+        tmp = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(tmp, "wb") as f:
+                pickle.dump(value, f)
+            os.replace(tmp, path)
+        except BaseException:
+            if os.path.exists(tmp):
+                os.remove(tmp)
+            raise
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
@@ -281,6 +290,24 @@ class FileSystemBackend(StoreBackend):
             os.makedirs(os.path.dirname(dest), exist_ok=True)
             os.symlink(src, dest)
 
+    @staticmethod
+    def _move(source: str, dst: str) -> None:
+        """Move a file such that *dst* never holds part of it."""
+        try:
+            os.rename(source, dst)
+            return
+        except OSError:
+            pass  # for example, on another filesystem
+        tmp = f"{dst}.{uuid.uuid4().hex}.tmp"
+        try:
+            shutil.copy2(source, tmp)
+            os.replace(tmp, dst)
+        except BaseException:
+            if os.path.exists(tmp):
+                os.remove(tmp)
+            raise
+        os.remove(source)
+
     def upload(self, source: str, key: str) -> None:
         """Move data from local *source* to the backend.
 
@@ -292,7 +319,7 @@ class FileSystemBackend(StoreBackend):
         same -> treat as success and remove *source*;
         different -> raise ``FileExistsError`` (no overwrite).
         Uses ``os.rename`` (zero-copy on same filesystem) with
-        ``shutil.move`` as fallback for cross-filesystem moves.
+        a copy and rename as fallback for cross-filesystem moves.
 
         Raises:
             FileExistsError: If destination is an existing directory, or
@@ -313,8 +340,7 @@ class FileSystemBackend(StoreBackend):
                     )
                 if self._same_file_content(source, dst):
                     if os.path.islink(dst):
-                        os.remove(dst)
-                        shutil.move(source, dst)
+                        self._move(source, dst)
                     else:
                         os.remove(source)
                     return
@@ -322,7 +348,7 @@ class FileSystemBackend(StoreBackend):
                     f"Upload destination already exists with different content: {dst}"
                 )
             os.makedirs(os.path.dirname(dst), exist_ok=True)
-            shutil.move(source, dst)
+            self._move(source, dst)
 
 
 class ObjectStore:
-- 
2.43.0


From 579400d8e491205b4cd7b39c46adec3f4d236519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:22 +0000
Subject: [PATCH 52/59] fix: tables held in memory and query results are
 combined in batches of the same size

---
 mplang/backends/table_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 158e7cb..4196213 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -545,7 +545,7 @@ class QueryTableSource(TableSource):
         if batch_size <= 0:
             batch_size = DEFAULT_BATCH_SIZE
         reader = self.relation.arrow(batch_size)
-        return TableReader(reader)
+        return TableReader(reader, batch_size=batch_size)
 
 
 # =============================================================================
@@ -935,7 +935,7 @@ def write_impl(
                 readers.append(
                     data.open(batch_size)
                     if isinstance(data, TableSource)
-                    else TableReader(data)
+                    else TableReader(data, batch_size=batch_size)
                 )
 
             reader: BatchReader = (
-- 
2.43.0


From f88e1b678675d8ae51f60a13a3ec856853dba5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:24 +0000
Subject: [PATCH 53/59] fix: tables written as JSON keep integers next to
 missing values and the digits of numbers

---
 mplang/backends/table_impl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 4196213..6782aac 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -965,8 +965,10 @@ def write_impl(
             def close(self) -> None:
                 # PyArrow doesn't have direct JSON write, convert to pandas
                 tbl = pa.Table.from_batches(self._batches)
-                df = tbl.to_pandas()
-                df.to_json(self._path, orient="records", lines=True)
+                df = tbl.to_pandas(integer_object_nulls=True)
+                df.to_json(
+                    self._path, orient="records", lines=True, double_precision=15
+                )
 
         def _safe_remove_file(p: str) -> None:
             if os.path.exists(p):
-- 
2.43.0


From ff334f773e7e30a1f8b6c93e9ac768f04a5ebfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:09 +0000
Subject: [PATCH 54/59] fix: OKVS without the native library uses the same hash
 as with it

Parties with and without libmplang_kernels.so could not decode each
other's tables: the fallback hashed keys in its own way.
---
 mplang/kernels/py_kernels.py | 74 ++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/mplang/kernels/py_kernels.py b/mplang/kernels/py_kernels.py
index f0f3e2b..6571fc0 100644
--- a/mplang/kernels/py_kernels.py
+++ b/mplang/kernels/py_kernels.py
@@ -24,14 +24,7 @@ from __future__ import annotations
 import numpy as np
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 
-from mplang.libs.mpc.common.constants import (
-    GOLDEN_RATIO_64,
-    PI_FRAC_1,
-    PI_FRAC_2,
-    SPLITMIX64_GAMMA_2,
-    SPLITMIX64_GAMMA_3,
-    SPLITMIX64_GAMMA_4,
-)
+from mplang.libs.mpc.common.constants import PI_FRAC_1, PI_FRAC_2
 
 # =============================================================================
 # GF(2^128) Arithmetic
@@ -186,22 +179,61 @@ def gf128_mul_batch(a: np.ndarray, b: np.ndarray) -> np.ndarray:
 # =============================================================================
 
 
-def _hash_key_py(key: int, m: int, seed: tuple[int, int]) -> tuple[int, int, int]:
-    """Hash a key to 3 distinct indices using simple polynomial hashing.
+def _aes_round_tables() -> list[list[int]]:
+    """Tables of one AES round: the column a byte contributes, per row."""
+    # S-box: multiplicative inverse in GF(2^8), then the affine map
+    sbox = [0x63] * 256
+    p = q = 1
+    while True:
+        p ^= ((p << 1) ^ (0x11B if p & 0x80 else 0)) & 0x1FF  # p *= 3
+        for shift in (1, 2, 4):  # q /= 3
+            q ^= (q << shift) & 0xFF
+        if q & 0x80:
+            q ^= 0x09
+        rot = q | (q << 8)
+        sbox[p] = (rot ^ (rot >> 4) ^ (rot >> 5) ^ (rot >> 6) ^ (rot >> 7)) & 0xFF ^ 0x63
+        if p == 1:
+            break
+
+    # MixColumns: column (2, 1, 1, 3) of S(x), rotated by the row
+    tables: list[list[int]] = [[], [], [], []]
+    for s in sbox:
+        s2 = ((s << 1) ^ (0x11B if s & 0x80 else 0)) & 0xFF
+        column = s2 | s << 8 | s << 16 | (s2 ^ s) << 24
+        for row in range(4):
+            tables[row].append(column)
+            column = ((column << 8) | (column >> 24)) & 0xFFFFFFFF
+    return tables
+
+
+_AES_ROUND = _aes_round_tables()
+
+
+def _aesenc(state: int, round_key: int) -> int:
+    """One AES encryption round on 128-bit integers (_mm_aesenc_si128)."""
+    t0, t1, t2, t3 = _AES_ROUND
+    b = state.to_bytes(16, "little")
+    mixed = 0
+    for c in range(0, 16, 4):
+        mixed |= (
+            t0[b[c]]
+            ^ t1[b[(c + 5) & 15]]
+            ^ t2[b[(c + 10) & 15]]
+            ^ t3[b[(c + 15) & 15]]
+        ) << (8 * c)
+    return mixed ^ round_key
 
-    This is a pure Python approximation of the AES-based hash in C++.
-    For compatibility, we use a deterministic hash based on the key.
-    """
-    # Simple polynomial hash (not as secure as AES, but deterministic)
-    s0, s1 = seed
 
-    # Mix key with seed
-    h1 = ((key * GOLDEN_RATIO_64) ^ s0) & ((1 << 64) - 1)
-    h2 = ((key * SPLITMIX64_GAMMA_2) ^ s1) & ((1 << 64) - 1)
+def _hash_key_py(key: int, m: int, seed: tuple[int, int]) -> tuple[int, int, int]:
+    """Hash a key to 3 distinct indices.
 
-    # Additional mixing
-    h1 = ((h1 ^ (h1 >> 33)) * SPLITMIX64_GAMMA_3) & ((1 << 64) - 1)
-    h2 = ((h2 ^ (h2 >> 33)) * SPLITMIX64_GAMMA_4) & ((1 << 64) - 1)
+    The same hash as in the native kernel (hash_key in okvs.cpp), so that
+    parties with and without the native library agree.
+    """
+    mask = (1 << 64) - 1
+    round_key = (seed[0] & mask) | (seed[1] & mask) << 64
+    h = _aesenc(_aesenc(key & mask, round_key), round_key)
+    h1, h2 = h & mask, h >> 64
 
     idx1 = h1 % m
     idx2 = h2 % m
-- 
2.43.0


From d6cbc2cc9e70b5b79c2eed5fda295e445a53093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:21 +0000
Subject: [PATCH 55/59] fix: both sides of a large OKVS choose the same layout

The optimized layout was chosen by the number of local keys and by the
presence of the native library, which differ between the party that
encodes a table and the one that decodes it. It now depends on the size
of the table only, and the fallback implements it.
---
 mplang/backends/field_impl.py | 39 +++++++++++++---------------
 mplang/kernels/py_kernels.py  | 48 +++++++++++++++++++++++++++++++++--
 2 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index 30928a7..52bf89a 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -138,28 +138,29 @@ def _gf128_mul_impl(a: np.ndarray, b: np.ndarray) -> np.ndarray:
     return out
 
 
+# Mega-Binning needs large tables: at most 200k items expanded by 1.32.
+_OKVS_OPT_MIN_M = 264_000
+
+
 def _okvs_solve_opt_impl(
     keys: np.ndarray, values: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    # The layout depends on the size of the table only: whoever decodes it
+    # knows neither the number of encoded keys nor the other party's kernels.
+    if m < _OKVS_OPT_MIN_M:
+        return _okvs_solve_impl(keys, values, m, seed)
+
     lib = _get_lib()
     if seed.ndim > 1:
         seed = seed.flatten()
 
     if lib is None:
-        # Fallback to standard (no python impl for opt)
-        return _okvs_solve_impl(keys, values, m, seed)
+        keys_flat = keys.flatten() if keys.ndim > 1 else keys
+        s_tuple = (int(seed[0]), int(seed[1]))
+        return py_kernels.okvs_solve(keys_flat, values, m, seed=s_tuple, binned=True)
 
     n = keys.shape[0]
 
-    # Heuristic: Mega-Binning is unstable < 200k.
-    if n < 200_000:
-        return _okvs_solve_impl(keys, values, m, seed)
-
-    # Heuristic: Mega-Binning requires higher expansion (epsilon ~ 1.35)
-    # If m/n is too tight, fallback to Naive (which works with 1.25)
-    if m / n < 1.32:
-        return _okvs_solve_impl(keys, values, m, seed)
-
     keys_c = np.ascontiguousarray(keys, dtype=np.uint64)
     values_c = np.ascontiguousarray(values, dtype=np.uint64)
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
@@ -179,24 +180,20 @@ def _okvs_solve_opt_impl(
 def _okvs_decode_opt_impl(
     keys: np.ndarray, storage: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    if m < _OKVS_OPT_MIN_M:
+        return _okvs_decode_impl(keys, storage, m, seed)
+
     lib = _get_lib()
     if seed.ndim > 1:
         seed = seed.flatten()
 
     if lib is None:
-        return _okvs_decode_impl(keys, storage, m, seed)
+        keys_flat = keys.flatten() if keys.ndim > 1 else keys
+        s_tuple = (int(seed[0]), int(seed[1]))
+        return py_kernels.okvs_decode(keys_flat, storage, m, seed=s_tuple, binned=True)
 
     n = keys.shape[0]
 
-    # Heuristic: Mega-Binning (1024 Bins) is unstable for small N due to variance.
-    # It requires ~1000 items/bin to be efficient and stable with epsilon=1.3.
-    # Threshold: 200,000 (approx 200 items/bin). Below this, Naive is fast enough (<50ms).
-    if n < 200_000:
-        return _okvs_decode_impl(keys, storage, m, seed)
-
-    if m / n < 1.32:
-        return _okvs_decode_impl(keys, storage, m, seed)
-
     keys_c = np.ascontiguousarray(keys, dtype=np.uint64)
     storage_c = np.ascontiguousarray(storage, dtype=np.uint64)
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
diff --git a/mplang/kernels/py_kernels.py b/mplang/kernels/py_kernels.py
index 6571fc0..9ab4ce2 100644
--- a/mplang/kernels/py_kernels.py
+++ b/mplang/kernels/py_kernels.py
@@ -250,11 +250,50 @@ def _hash_key_py(key: int, m: int, seed: tuple[int, int]) -> tuple[int, int, int
     return int(idx1), int(idx2), int(idx3)
 
 
+_OKVS_NUM_BINS = 1024  # NUM_BINS in okvs_opt.cpp
+
+
+def _hash_key_opt_py(key: int, m: int, seed: tuple[int, int]) -> tuple[int, int, int]:
+    """Hash a key to 3 distinct indices within its bin.
+
+    The same hash as in the native kernel (get_bin_index and
+    get_bin_local_indices in okvs_opt.cpp).
+    """
+    mask = (1 << 64) - 1
+    key &= mask
+    round_key = (seed[0] & mask) | (seed[1] & mask) << 64
+    h = _aesenc(_aesenc(key, round_key), round_key)
+    b = (h & mask) % _OKVS_NUM_BINS
+    base, remainder = divmod(m, _OKVS_NUM_BINS)
+    offset = b * base + min(b, remainder)
+    m_local = base + (1 if b < remainder else 0)
+
+    round_key = ((seed[0] + 1) & mask) | ((seed[1] + 1) & mask) << 64
+    h = _aesenc(_aesenc(_aesenc(key, round_key), round_key), round_key)
+    r = h & mask
+    idx1 = r % m_local
+    r = (r * 6364136223846793005 + 1442695040888963407) & mask
+    idx2 = r % m_local
+    r = (r * 6364136223846793005 + 1442695040888963407) & mask
+    idx3 = r % m_local
+
+    # Enforce distinct indices
+    if idx2 == idx1:
+        idx2 = (idx2 + 1) % m_local
+    if idx3 == idx1 or idx3 == idx2:
+        idx3 = (idx3 + 1) % m_local
+        if idx3 == idx1 or idx3 == idx2:
+            idx3 = (idx3 + 1) % m_local
+
+    return offset + idx1, offset + idx2, offset + idx3
+
+
 def okvs_solve(
     keys: np.ndarray,
     values: np.ndarray,
     m: int,
     seed: tuple[int, int] = (0xDEADBEEF, 0xCAFEBABE),
+    binned: bool = False,
 ) -> np.ndarray:
     """Solve the OKVS system using peeling algorithm.
 
@@ -262,18 +301,20 @@ def okvs_solve(
         keys: Shape (n,) uint64 array of keys
         values: Shape (n, 2) uint64 array of values (128-bit each)
         m: Size of output storage
+        binned: Use the layout of solve_okvs_opt
 
     Returns:
         Shape (m, 2) uint64 array representing the OKVS storage
     """
     n = len(keys)
+    hash_key = _hash_key_opt_py if binned else _hash_key_py
 
     # Build graph: for each row, compute its 3 column indices
     rows = []
     col_to_rows: dict[int, list[int]] = {j: [] for j in range(m)}
 
     for i in range(n):
-        h1, h2, h3 = _hash_key_py(int(keys[i]), m, seed)
+        h1, h2, h3 = hash_key(int(keys[i]), m, seed)
         rows.append((h1, h2, h3))
         col_to_rows[h1].append(i)
         col_to_rows[h2].append(i)
@@ -348,6 +389,7 @@ def okvs_decode(
     storage: np.ndarray,
     m: int,
     seed: tuple[int, int] = (0xDEADBEEF, 0xCAFEBABE),
+    binned: bool = False,
 ) -> np.ndarray:
     """Decode values from OKVS storage.
 
@@ -355,15 +397,17 @@ def okvs_decode(
         keys: Shape (n,) uint64 array of keys to query
         storage: Shape (m, 2) uint64 array (the solved OKVS)
         m: Size of storage
+        binned: Use the layout of decode_okvs_opt
 
     Returns:
         Shape (n, 2) uint64 array of decoded values
     """
     n = len(keys)
+    hash_key = _hash_key_opt_py if binned else _hash_key_py
     output = np.zeros((n, 2), dtype=np.uint64)
 
     for i in range(n):
-        h1, h2, h3 = _hash_key_py(int(keys[i]), m, seed)
+        h1, h2, h3 = hash_key(int(keys[i]), m, seed)
         output[i] = storage[h1] ^ storage[h2] ^ storage[h3]
 
     return output
-- 
2.43.0


From 8da33451b475ee18b7c58b9bfec96c9638a65d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:06 +0000
Subject: [PATCH 56/59] fix: an OKVS the native kernel cannot solve is an error

The native solver left a table of zeros, from which every lookup decodes
to zero; the optimized one solved failing bins with other hash functions
than the decoder uses. A library without some routine is not used either.
---
 mplang/backends/field_impl.py | 30 +++++++++++++++++++-----------
 mplang/kernels/okvs.cpp       |  6 ++++--
 mplang/kernels/okvs_opt.cpp   | 30 +++++++++++++-----------------
 3 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index 52bf89a..c014300 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -53,20 +53,20 @@ def _get_lib() -> ctypes.CDLL | None:
     with _LIB_LOCK:
         if _LIB is None:
             try:
-                _LIB = ctypes.CDLL(_KERNEL_LIB_PATH)
+                lib = ctypes.CDLL(_KERNEL_LIB_PATH)
                 # Define signatures
-                _LIB.gf128_mul.argtypes = [
+                lib.gf128_mul.argtypes = [
                     ctypes.POINTER(ctypes.c_uint64),
                     ctypes.POINTER(ctypes.c_uint64),
                     ctypes.POINTER(ctypes.c_uint64),
                 ]
-                _LIB.gf128_mul_batch.argtypes = [
+                lib.gf128_mul_batch.argtypes = [
                     ctypes.POINTER(ctypes.c_uint64),
                     ctypes.POINTER(ctypes.c_uint64),
                     ctypes.POINTER(ctypes.c_uint64),
                     ctypes.c_int64,
                 ]
-                _LIB.solve_okvs.argtypes = [
+                lib.solve_okvs.argtypes = [
                     ctypes.POINTER(ctypes.c_uint64),  # keys
                     ctypes.POINTER(ctypes.c_uint64),  # values
                     ctypes.POINTER(ctypes.c_uint64),  # output
@@ -74,7 +74,8 @@ def _get_lib() -> ctypes.CDLL | None:
                     ctypes.c_uint64,  # m
                     ctypes.POINTER(ctypes.c_uint64),  # seed
                 ]
-                _LIB.decode_okvs.argtypes = [
+                lib.solve_okvs.restype = ctypes.c_int  # 0 if solved
+                lib.decode_okvs.argtypes = [
                     ctypes.POINTER(ctypes.c_uint64),  # keys
                     ctypes.POINTER(ctypes.c_uint64),  # storage
                     ctypes.POINTER(ctypes.c_uint64),  # output
@@ -83,16 +84,17 @@ def _get_lib() -> ctypes.CDLL | None:
                     ctypes.POINTER(ctypes.c_uint64),  # seed
                 ]
                 # Optimized Mega-Binning Versions
-                _LIB.solve_okvs_opt.argtypes = _LIB.solve_okvs.argtypes
-                _LIB.decode_okvs_opt.argtypes = _LIB.decode_okvs.argtypes
+                lib.solve_okvs_opt.argtypes = lib.solve_okvs.argtypes
+                lib.solve_okvs_opt.restype = ctypes.c_int
+                lib.decode_okvs_opt.argtypes = lib.decode_okvs.argtypes
 
-                _LIB.aes_128_expand.argtypes = [
+                lib.aes_128_expand.argtypes = [
                     ctypes.POINTER(ctypes.c_uint64),  # seeds
                     ctypes.POINTER(ctypes.c_uint64),  # output
                     ctypes.c_uint64,  # num_seeds
                     ctypes.c_uint64,  # length
                 ]
-                _LIB.ldpc_encode.argtypes = [
+                lib.ldpc_encode.argtypes = [
                     ctypes.POINTER(ctypes.c_uint64),  # message
                     ctypes.POINTER(ctypes.c_uint64),  # indices
                     ctypes.POINTER(ctypes.c_uint64),  # indptr
@@ -100,6 +102,8 @@ def _get_lib() -> ctypes.CDLL | None:
                     ctypes.c_uint64,  # m
                     ctypes.c_uint64,  # n
                 ]
+                # Only a library with all routines is used
+                _LIB = lib
             except OSError:
                 print(f"WARNING: Could not load kernels from {_KERNEL_LIB_PATH}")
     return _LIB
@@ -166,7 +170,7 @@ def _okvs_solve_opt_impl(
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
     output = np.zeros((m, 2), dtype=np.uint64)
 
-    lib.solve_okvs_opt(
+    status = lib.solve_okvs_opt(
         keys_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         values_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         output.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
@@ -174,6 +178,8 @@ def _okvs_solve_opt_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    if status != 0:
+        raise RuntimeError(f"OKVS system could not be solved. n={n}, m={m}")
     return output
 
 
@@ -230,7 +236,7 @@ def _okvs_solve_impl(
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
     output = np.zeros((m, 2), dtype=np.uint64)
 
-    lib.solve_okvs(
+    status = lib.solve_okvs(
         keys_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         values_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         output.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
@@ -238,6 +244,8 @@ def _okvs_solve_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    if status != 0:
+        raise RuntimeError(f"OKVS system could not be solved. n={n}, m={m}")
     return output
 
 
diff --git a/mplang/kernels/okvs.cpp b/mplang/kernels/okvs.cpp
index 185d2e1..c70ed14 100644
--- a/mplang/kernels/okvs.cpp
+++ b/mplang/kernels/okvs.cpp
@@ -58,7 +58,8 @@ extern "C" {
     }
 
     // Solve OKVS System: H * P = V
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
+    // Returns 0, or 1 if the system could not be solved.
+    int solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
         // Load dynamic seed
         __m128i seed = _mm_loadu_si128((__m128i*)seed_ptr);
 
@@ -172,7 +173,7 @@ extern "C" {
                     n, m, assignment_stack.size());
             // Zero output to identify failure clearly
             memset(output, 0, m * 16);
-            return;
+            return 1;
         }
 
         // 6. Back Substitution
@@ -196,6 +197,7 @@ extern "C" {
 
             _mm_storeu_si128(&P_vec[a.col], diff);
         }
+        return 0;
     }
 
     void decode_okvs(uint64_t* keys, uint64_t* storage, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
diff --git a/mplang/kernels/okvs_opt.cpp b/mplang/kernels/okvs_opt.cpp
index fe9731c..51ed998 100644
--- a/mplang/kernels/okvs_opt.cpp
+++ b/mplang/kernels/okvs_opt.cpp
@@ -36,10 +36,6 @@ extern "C" {
         uint64_t h1, h2, h3;
     };
 
-    // Declaration of the safe (robust) solver implemented in okvs.cpp
-    // Signature: solve_okvs(keys, values, output, n, m, seed_ptr)
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr);
-
     // Stateless Bin Selection
     // Maps a key to a deterministic bin index [0, NUM_BINS).
     inline uint64_t get_bin_index(uint64_t key, __m128i seed) {
@@ -187,7 +183,8 @@ extern "C" {
         return true;
     }
 
-    void solve_okvs_opt(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
+    // Returns 0, or 1 if the system could not be solved.
+    int solve_okvs_opt(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
         __m128i seed = _mm_loadu_si128((__m128i*)seed_ptr);
 
         // 1. Calculate Bin Boundaries
@@ -240,6 +237,7 @@ extern "C" {
         // The working set for each bin (~1000 items) stays hot in L1 Cache.
         memset(output, 0, m * 16);
         __m128i* P_vec = (__m128i*)output;
+        bool failed = false;
 
         #pragma omp parallel for schedule(dynamic)
         for(uint64_t b=0; b<NUM_BINS; ++b) {
@@ -249,24 +247,22 @@ extern "C" {
             uint64_t valid_m = m_per_bin[b];
 
             if(!solve_bin(bin_keys[b], bin_vals[b], &P_vec[offset], valid_m, seed)) {
-                // On failure, log and fall back to the robust solver for this bin.
-                // The fallback is executed inside a critical section to avoid nested OpenMP
-                // regions and to serialize rare fallbacks.
+                // Solving the bin with other hash functions (as solve_okvs does) would
+                // produce values that decode_okvs_opt does not find.
                 #pragma omp critical
                 {
-                    fprintf(stderr, "[WARN] Bin %lu failed optimized peeling; falling back to safe solver. Items: %lu / M: %lu (Ratio: %.2f)\n",
+                    fprintf(stderr, "[ERROR] Bin %lu failed optimized peeling. Items: %lu / M: %lu (Ratio: %.2f)\n",
                         b, bin_keys[b].size(), valid_m, (double)valid_m / bin_keys[b].size());
-
-                    // Prepare pointers for the safe solver
-                    uint64_t* keys_ptr = &bin_keys[b][0];
-                    uint64_t* vals_ptr = (uint64_t*)&bin_vals[b][0];  // Cast __m128i* to uint64_t*
-                    uint64_t* out_ptr = output + (offset * 2ULL); // each 128-bit slot == 2 uint64_t
-
-                    // Call the safe solver implemented in okvs.cpp
-                    solve_okvs(keys_ptr, vals_ptr, out_ptr, bin_keys[b].size(), valid_m, seed_ptr);
+                    failed = true;
                 }
             }
         }
+
+        if(failed) {
+            memset(output, 0, m * 16);
+            return 1;
+        }
+        return 0;
     }
 
     void decode_okvs_opt(uint64_t* keys, uint64_t* storage, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
-- 
2.43.0


From 59af1486c6ef2f0adf5468acb6494fc4f1513235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:18 +0000
Subject: [PATCH 57/59] fix: native GF(2^128) multiplication reduces the upper
 64 bits of the product

The reduction multiplied by the upper half of the constant, which is zero.
---
 mplang/kernels/gf128.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/kernels/gf128.cpp b/mplang/kernels/gf128.cpp
index f4c7bb2..4692b84 100644
--- a/mplang/kernels/gf128.cpp
+++ b/mplang/kernels/gf128.cpp
@@ -118,7 +118,7 @@ extern "C" {
         __m128i r1_lo = r1;
 
         __m128i m0 = _mm_clmulepi64_si128(r1, Q, 0x00); // r1_lo * Q
-        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x10); // r1_hi * Q
+        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x01); // r1_hi * Q
 
         __m128i m1_shifted = _mm_slli_si128(m1, 8);
         __m128i M_lo = _mm_xor_si128(m0, m1_shifted);
-- 
2.43.0


From 2ba3a759d3151cd9ef79d9d4286fe6ba7db4c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:18 +0000
Subject: [PATCH 58/59] fix: native kernels are only given buffers of the size
 they index

Operands of differing sizes were read beyond their end.
---
 mplang/backends/field_impl.py | 39 +++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index c014300..f760674 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -114,8 +114,42 @@ def _get_lib() -> ctypes.CDLL | None:
 # =============================================================================
 
 
+# The kernels trust the lengths they are given, so that every buffer must be
+# known to have the size they index.
+
+
+def _check_okvs_args(
+    keys: np.ndarray, data: np.ndarray, rows: int, m: int, seed: np.ndarray
+) -> None:
+    if keys.size != keys.shape[0]:
+        raise ValueError(f"OKVS keys must be one 64-bit integer each, got {keys.shape}")
+    if data.shape != (rows, 2):
+        raise ValueError(f"OKVS data must have shape {(rows, 2)}, got {data.shape}")
+    if seed.size < 2:
+        raise ValueError(f"OKVS seed must have 128 bits, got {seed.size} integers")
+    if m < 1:
+        raise ValueError(f"OKVS table must have at least one row, got {m}")
+
+
+def _check_ldpc_args(
+    message: np.ndarray, h_indices: np.ndarray, h_indptr: np.ndarray, m: int
+) -> None:
+    n = message.shape[0]
+    if message.shape != (n, 2):
+        raise ValueError(f"LDPC message must have shape {(n, 2)}, got {message.shape}")
+    ptr = h_indptr.reshape(-1)
+    if ptr.size != m + 1 or np.any(ptr[1:] < ptr[:-1]):
+        raise ValueError(f"LDPC row pointers are not {m + 1} ascending integers")
+    if ptr[0] < 0 or ptr[-1] > h_indices.size:
+        raise ValueError("LDPC row pointers lie outside of the indices")
+    if h_indices.size and (h_indices.min() < 0 or h_indices.max() >= n):
+        raise ValueError(f"LDPC indices lie outside of the message of {n} blocks")
+
+
 def _gf128_mul_impl(a: np.ndarray, b: np.ndarray) -> np.ndarray:
     # a, b are numpy arrays (uint64) usually (N, 2)
+    if b.size < a.size or a.size % 2:
+        raise ValueError(f"GF(2^128) operands do not match: {a.shape} and {b.shape}")
 
     lib = _get_lib()
     if lib is None:
@@ -154,6 +188,7 @@ def _okvs_solve_opt_impl(
     if m < _OKVS_OPT_MIN_M:
         return _okvs_solve_impl(keys, values, m, seed)
 
+    _check_okvs_args(keys, values, keys.shape[0], m, seed)
     lib = _get_lib()
     if seed.ndim > 1:
         seed = seed.flatten()
@@ -189,6 +224,7 @@ def _okvs_decode_opt_impl(
     if m < _OKVS_OPT_MIN_M:
         return _okvs_decode_impl(keys, storage, m, seed)
 
+    _check_okvs_args(keys, storage, m, m, seed)
     lib = _get_lib()
     if seed.ndim > 1:
         seed = seed.flatten()
@@ -219,6 +255,7 @@ def _okvs_decode_opt_impl(
 def _okvs_solve_impl(
     keys: np.ndarray, values: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    _check_okvs_args(keys, values, keys.shape[0], m, seed)
     lib = _get_lib()
     # Ensure seed is flat tuple or array
     if seed.ndim > 1:
@@ -252,6 +289,7 @@ def _okvs_solve_impl(
 def _okvs_decode_impl(
     keys: np.ndarray, storage: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    _check_okvs_args(keys, storage, m, m, seed)
     lib = _get_lib()
     # Ensure seed is flat tuple or array
     if seed.ndim > 1:
@@ -283,6 +321,7 @@ def _okvs_decode_impl(
 def ldpc_encode_impl(
     message: np.ndarray, h_indices: np.ndarray, h_indptr: np.ndarray, m: int
 ) -> np.ndarray:
+    _check_ldpc_args(message, h_indices, h_indptr, m)
     lib = _get_lib()
     if lib is None:
         # Use pure Python fallback
-- 
2.43.0


From 29d9421dc75cbe109dda8ae22ba8540f4bf294e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:45 +0000
Subject: [PATCH 59/59] fix: a single AES seed given without a row dimension is
 one seed, not two

---
 mplang/backends/field_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index f760674..a9db95c 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -382,8 +382,8 @@ def _aes_expand_impl_prim(
     if seeds.dtype == np.uint8 and seeds.shape[-1] == 16:
         seeds = seeds.view(np.uint64)
 
-    if seeds.shape[-1] != 2:
-        seeds = seeds.reshape(-1, 2)
+    # One seed per row: the kernel reads num_seeds of them
+    seeds = seeds.reshape(-1, 2)
 
     num_seeds = seeds.shape[0]
     out_shape = (num_seeds, length, 2)
-- 
2.43.0

