From 8f36d134bce2fb8575f5e0570812ba7b564248a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:24 +0000
Subject: [PATCH 01/49] fix: a parallel block no longer absorbs another block's
 collect node

A block (or collector) that uses the result of another Parallelizable/Collect
block was grouped with that block: depending on set order the run returned a
wrong value, failed with KeyError or never terminated. Stop the backwards search
for the block's expander at other collectors.
---
 hamilton/execution/graph_functions.py | 4 ++++
 hamilton/execution/grouping.py        | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index b3379cd..613d1d6 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -334,6 +334,7 @@ def execute_lifecycle_for_node(
 def nodes_between(
     end_node: node.Node,
     search_condition: lambda node_: bool,
+    stop_condition: lambda node_: bool = lambda node_: False,
 ) -> Tuple[Optional[node.Node], List[node.Node]]:
     """Utility function to search backwards from an end node to a start node.
     This returns all nodes for which both of the following conditions are met:
@@ -349,6 +350,7 @@ def nodes_between(
 
     :param end_node: Node to trace back from
     :param search_condition: Condition to stop the search for ancestors
+    :param stop_condition: Nodes matching this (and their ancestors) are never in between
     :return: A tuple of [start_node, between], where start_node is None
     if there is no path (and between will be empty).
     """
@@ -363,6 +365,8 @@ def nodes_between(
             nonlocal search_node
             search_node = node_
             return True
+        if stop_condition(node_):
+            return False
         if node_ in visited:
             # if we've already seen it, we want to include it
             return node_ in out
diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index ed68ffd..85dc6e0 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -188,7 +188,11 @@ class GroupByRepeatableBlocks(GroupingStrategy):
         def is_expander(node_: node.Node) -> bool:
             return node_.node_role in [NodeType.EXPAND]
 
-        return graph_functions.nodes_between(collect_node, is_expander)
+        def is_collector(node_: node.Node) -> bool:
+            # another collector closes its own block -- what is upstream of it is not in this one
+            return node_.node_role in [NodeType.COLLECT]
+
+        return graph_functions.nodes_between(collect_node, is_expander, is_collector)
 
     def group_nodes(self, nodes: List[node.Node]) -> List[NodeGroup]:
         """Groups nodes into blocks. This works as follows:
-- 
2.43.0


From 43b40d57dcf86901df7833927fe3029cba8a812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:17 +0000
Subject: [PATCH 02/49] fix: an override of an input also applies under dynamic
 execution

---
 hamilton/driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 868764e..83ab7b6 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -237,7 +237,8 @@ class TaskBasedGraphExecutor(GraphExecutor):
         )  # pure function transform
         # Instantiate a result cache so we can use later
         # Pass in inputs so we can pre-populate the results cache
-        prehydrated_results = {**overrides, **inputs}
+        # overrides take precedence, as they do in the default executor
+        prehydrated_results = {**inputs, **overrides}
         results_cache = state.DictBasedResultCache(prehydrated_results)
         # Create tasks from the grouped nodes, filtering/pruning as we go
         tasks = grouping.create_task_plan(grouped_nodes, final_vars, overrides, self.adapter)
-- 
2.43.0


From 06658f733f8c62dfb0685bf104ed5380a8b18423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:24 +0000
Subject: [PATCH 03/49] fix: a cancelled async node is reported to hooks as
 failed, not as succeeded

---
 hamilton/async_driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 63d3a8b..a6a7f11 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -121,7 +121,8 @@ class AsyncGraphAdapter(lifecycle_base.BaseDoNodeExecute, lifecycle.ResultBuilde
                 result = (
                     await fn(**fn_kwargs) if asyncio.iscoroutinefunction(fn) else fn(**fn_kwargs)
                 )
-            except Exception as e:
+            except (Exception, asyncio.CancelledError) as e:
+                # a cancelled node has not succeeded; CancelledError is not an Exception
                 success = False
                 error = e
                 step = "[pre-node-execute:async]" if pre_node_execute_errored else ""
-- 
2.43.0


From 2385bf3b10a495256b592f283e526a006ed469d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 04/49] fix: caching lost versions of parallel branches that
 start at the same time

Two branches of a Parallelizable initialise the per-node table concurrently;
the second initialisation dropped the entry of the first, which then failed
with TypeError or AssertionError.
---
 hamilton/caching/adapter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 59fd181..287c1f8 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -596,9 +596,8 @@ class HamiltonCacheAdapter(
         ):
             self.cache_keys[run_id][node_name] = cache_key
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.cache_keys[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.cache_keys[run_id][node_name] = {}
-            self.cache_keys[run_id][node_name][task_id] = cache_key  # type: ignore ; we just initialized the nested dict
+            # `.setdefault()` is atomic; parallel branches initialize this concurrently
+            self.cache_keys[run_id].setdefault(node_name, {})[task_id] = cache_key  # type: ignore
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
@@ -734,9 +733,8 @@ class HamiltonCacheAdapter(
         elif node_role == NodeRoleInTaskExecution.EXPAND:
             self.data_versions[run_id][node_name] = {}
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.data_versions[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.data_versions[run_id][node_name] = {}
-            self.data_versions[run_id][node_name][task_id] = data_version  # type: ignore ; we just initialized the nested dict
+            # `.setdefault()` is atomic; parallel branches initialize this concurrently
+            self.data_versions[run_id].setdefault(node_name, {})[task_id] = data_version  # type: ignore
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
-- 
2.43.0


From 84972cba242207f5229d281ec7c529fed4a368d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:18 +0000
Subject: [PATCH 05/49] fix: caching failed when tasks hold several nodes and
 depend on each other

With a grouping strategy such as GroupNodesByLevel, dependencies computed in
another task have no data version under the current task id and building the
cache key raised TypeError.
---
 hamilton/caching/adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 287c1f8..ee8b413 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1208,7 +1208,10 @@ class HamiltonCacheAdapter(
                 if tasks_data_versions is SENTINEL:
                     dep_data_version = self.version_data(dep_value, run_id=run_id)
                 elif isinstance(tasks_data_versions, dict):
+                    # a dependency computed by another task has no version under this `task_id`
                     dep_data_version = tasks_data_versions.get(task_id)
+                    if dep_data_version is None:
+                        dep_data_version = self.version_data(dep_value, run_id=run_id)
                 else:
                     dep_data_version = tasks_data_versions
 
-- 
2.43.0


From 357a74f2bee12ecf77785205509985034fa5fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:09 +0000
Subject: [PATCH 06/49] fix: caching ignored the order of collected items

A Collect node was retrieved from cache after the order of the items had
changed, and returned the result for the old order.
---
 hamilton/caching/adapter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index ee8b413..5cf0ddb 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1143,8 +1143,8 @@ class HamiltonCacheAdapter(
         Collecting ``data_version`` for upstream dependencies requires handling special cases when
         task-based execution is used:
         - If the current node is ``COLLECT`` , the dependency annotated with ``Collect[]`` needs to
-        be versioned item by item instead of versioning the full container. This is because the
-        collect order is inconsistent.
+        be versioned item by item instead of versioning the full container. Items are collected in
+        the order they were yielded, hence their order is part of the version.
         - If the current node is ``INSIDE`` and the dependency is ``EXPAND``, this means the
         ``kwargs`` dictionary contains a single item. We need to version this individual item because
         it will not be available from "inside" the branch for some executors (multiprocessing, multithreading)
@@ -1194,7 +1194,7 @@ class HamiltonCacheAdapter(
             if dep_name == collected_name:
                 # the collected value should be hashed based on the items, not the container
                 items_data_versions = [self.version_data(item, run_id=run_id) for item in dep_value]
-                dep_data_version = fingerprinting.hash_value(sorted(items_data_versions))
+                dep_data_version = fingerprinting.hash_value(items_data_versions)
 
             elif dep_role == NodeRoleInTaskExecution.EXPAND:
                 # if the dependency is `EXPAND`, the kwarg received is a single item yielded by the iterator
-- 
2.43.0


From 496c7ea4cf5c16f2d9e0a5defe83eb283eca03d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:19 +0000
Subject: [PATCH 07/49] fix: data version of pandas objects ignored rows with a
 duplicated index

Only the last row per index value was hashed, so changing another row went
unnoticed and dependents were served from cache.
---
 hamilton/caching/fingerprinting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index ee5ea96..458a65b 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -240,7 +240,10 @@ def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     from pandas.util import hash_pandas_object
 
     hash_per_row = hash_pandas_object(obj)
-    return hash_mapping(hash_per_row.to_dict(), ignore_order=False, depth=depth + 1)
+    # hash pairs rather than a dictionary because index values may be duplicated
+    return hash_sequence(
+        [elem for pair in hash_per_row.items() for elem in pair], depth=depth + 1
+    )
 
 
 @hash_value.register(h_databackends.AbstractPolarsDataFrame)
-- 
2.43.0


From 7b60ed1c418b5f9113dc6bfda5e4dd2cec5b79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:58 +0000
Subject: [PATCH 08/49] fix: cached results were written in place

A process killed while writing left a truncated result under its final name,
and concurrent readers could load a partial file (EOFError, UnpicklingError);
the cache entry then failed on every later execution. Results are now written
to a temporary file and renamed.
---
 hamilton/caching/stores/file.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 9721a72..d78ffa1 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -1,5 +1,7 @@
 import inspect
+import os
 import shutil
+import uuid
 from pathlib import Path
 from typing import Any, Optional
 
@@ -29,7 +31,15 @@ class FileResultStore(ResultStore):
 
     @staticmethod
     def _write_result(file_path: Path, stored_result: StoredResult) -> None:
-        file_path.write_bytes(stored_result.save())
+        # write to a temporary file then rename it such that a result file is always complete,
+        # even if the process is killed or other threads and processes read it concurrently
+        tmp_path = file_path.with_name(f".{file_path.name}.{uuid.uuid4()}.tmp")
+        try:
+            tmp_path.write_bytes(stored_result.save())
+            os.replace(tmp_path, file_path)
+        except BaseException:
+            tmp_path.unlink(missing_ok=True)
+            raise
 
     @staticmethod
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
-- 
2.43.0


From 502b9a743662ca6fd33ffe30dc8720a4a9350138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:17 +0000
Subject: [PATCH 09/49] fix: a damaged or deleted cached result broke or
 falsified executions

Nothing raised ResultRetrievalError, so an unreadable result file failed every
later execution instead of being recomputed, and a deleted file (result or
materialized data) was returned as None.
---
 hamilton/caching/adapter.py     |  2 ++
 hamilton/caching/stores/file.py | 10 +++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 5cf0ddb..acee839 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1328,6 +1328,8 @@ class HamiltonCacheAdapter(
             try:
                 # successful retrieval: retrieve the result; potentially load using the DataLoader if e.g.,``@cache(format="json")``
                 result = self.result_store.get(data_version=data_version)
+                if result is None and self.result_store.exists(data_version) is False:
+                    raise ResultRetrievalError(f"Result was deleted: {data_version}")
                 self._log_event(
                     run_id=run_id,
                     node_name=node_name,
diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index d78ffa1..3d245dc 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -12,7 +12,7 @@ except ImportError:
 
 from hamilton.io.data_adapters import DataLoader, DataSaver
 
-from .base import ResultStore, StoredResult
+from .base import ResultRetrievalError, ResultStore, StoredResult
 
 
 class FileResultStore(ResultStore):
@@ -45,9 +45,9 @@ class FileResultStore(ResultStore):
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
         try:
             data = path.read_bytes()
-            return StoredResult.load(data)
         except FileNotFoundError:
             return None
+        return StoredResult.load(data)
 
     def _path_from_data_version(self, data_version: str) -> Path:
         return self.path.joinpath(data_version)
@@ -109,7 +109,11 @@ class FileResultStore(ResultStore):
     @override
     def get(self, data_version: str) -> Optional[Any]:
         result_path = self._path_from_data_version(data_version)
-        stored_result = self._load_result_from_path(result_path)
+        try:
+            stored_result = self._load_result_from_path(result_path)
+        except Exception as e:
+            # for example, the file is corrupted or the materialized file was deleted
+            raise ResultRetrievalError(f"Failed to load result from {result_path}") from e
 
         if stored_result is None:
             return None
-- 
2.43.0


From 0731b820377c4e152556121b564be5d5d69591ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:23 +0000
Subject: [PATCH 10/49] fix: SQLiteMetadataStore kept the first data version of
 a recomputed node

After a RECOMPUTE produced a new result for the same cache key, later
executions with the DEFAULT behavior returned the outdated result. The
in-memory store already keeps the latest version.
---
 hamilton/caching/stores/sqlite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 1e43484..089cc9b 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -147,7 +147,7 @@ class SQLiteMetadataStore(MetadataStore):
         cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
         cur.execute(
             """\
-            INSERT OR IGNORE INTO cache_metadata (
+            INSERT OR REPLACE INTO cache_metadata (
                 cache_key, node_name, code_version, data_version
             ) VALUES (?, ?, ?, ?)
             """,
-- 
2.43.0


From fdab9de4787ce35540d9e79c6f20c77fbf52f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:01 +0000
Subject: [PATCH 11/49] fix: a failed metadata write left the SQLite database
 locked

The transaction stayed open, and with it the lock, for as long as the connection lived.
---
 hamilton/caching/stores/sqlite.py | 39 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 089cc9b..8019031 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -107,9 +107,10 @@ class SQLiteMetadataStore(MetadataStore):
         """Call initialize when starting a run. This will create database tables
         if necessary.
         """
-        cur = self.connection.cursor()
-        cur.execute("INSERT INTO run_ids (run_id) VALUES (?)", (run_id,))
-        self.connection.commit()
+        # the context manager commits the transaction; on failure, it rolls it back, otherwise the
+        # connection would hold a lock on the database
+        with self.connection as connection:
+            connection.execute("INSERT INTO run_ids (run_id) VALUES (?)", (run_id,))
 
     def __len__(self) -> int:
         """Number of entries in cache_metadata"""
@@ -127,8 +128,6 @@ class SQLiteMetadataStore(MetadataStore):
         code_version: str = None,
         **kwargs,
     ) -> None:
-        cur = self.connection.cursor()
-
         # if the caller of ``.set()`` directly provides the ``node_name`` and ``code_version``,
         # we can skip the decoding step.
         if (node_name is None) or (code_version is None):
@@ -144,17 +143,20 @@ class SQLiteMetadataStore(MetadataStore):
             node_name = decoded_key["node_name"]
             code_version = decoded_key["code_version"]
 
-        cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
-        cur.execute(
-            """\
-            INSERT OR REPLACE INTO cache_metadata (
-                cache_key, node_name, code_version, data_version
-            ) VALUES (?, ?, ?, ?)
-            """,
-            (cache_key, node_name, code_version, data_version),
-        )
-
-        self.connection.commit()
+        # the context manager commits the transaction; on failure, it rolls it back, otherwise the
+        # connection would hold a lock on the database
+        with self.connection as connection:
+            connection.execute(
+                "INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id)
+            )
+            connection.execute(
+                """\
+                INSERT OR REPLACE INTO cache_metadata (
+                    cache_key, node_name, code_version, data_version
+                ) VALUES (?, ?, ?, ?)
+                """,
+                (cache_key, node_name, code_version, data_version),
+            )
 
     def get(self, cache_key: str) -> Optional[str]:
         cur = self.connection.cursor()
@@ -177,9 +179,8 @@ class SQLiteMetadataStore(MetadataStore):
 
     def delete(self, cache_key: str) -> None:
         """Delete metadata associated with ``cache_key``."""
-        cur = self.connection.cursor()
-        cur.execute("DELETE FROM cache_metadata WHERE cache_key = ?", (cache_key,))
-        self.connection.commit()
+        with self.connection as connection:
+            connection.execute("DELETE FROM cache_metadata WHERE cache_key = ?", (cache_key,))
 
     def delete_all(self) -> None:
         """Delete all existing tables from the database"""
-- 
2.43.0


From b41f6a5c54aa4c13c3e10910cbad7654671a9f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:21 +0000
Subject: [PATCH 12/49] fix: InMemoryMetadataStore.get_run failed after runs
 with ignored nodes

Nodes with behavior IGNORE have no cache key; get_run() and persist_to() tried to decode it.
---
 hamilton/caching/stores/memory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 37eee89..fabf9f9 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -37,6 +37,10 @@ class InMemoryMetadataStore(MetadataStore):
     @override
     def set(self, cache_key: str, data_version: str, run_id: str, **kwargs) -> Optional[Any]:
         """Set the ``data_version`` for ``cache_key`` and associate it with the ``run_id``."""
+        # nodes with behavior IGNORE have no ``cache_key``, hence no metadata to retrieve
+        if cache_key is None:
+            return
+
         self._data_versions[cache_key] = data_version
         self._cache_keys_by_run[run_id].append(cache_key)
 
-- 
2.43.0


From c182fbb7209b7ee233f59c3285f500f9c9979010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:25 +0000
Subject: [PATCH 13/49] fix: caching replaced tuples returned by data loaders
 by their first item

The nodes collected in _data_loaders are those that receive the data (the
node that returns the data and its metadata is a different one), so a loaded
value that is itself a tuple was cut down to its first item.
---
 hamilton/caching/adapter.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index acee839..42fc665 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -249,7 +249,6 @@ class HamiltonCacheAdapter(
         self.run_ids: List[str] = []
         self._fn_graphs: Dict[str, FunctionGraph] = {}  # {run_id: graph}
         self._data_savers: Dict[str, Collection[str]] = {}  # {run_id: list[node_name]}
-        self._data_loaders: Dict[str, Collection[str]] = {}  # {run_id: list[node_name]}
         self.behaviors: Dict[
             str, Dict[str, CachingBehavior]
         ] = {}  # {run_id: {node_name: behavior}}
@@ -982,8 +981,6 @@ class HamiltonCacheAdapter(
                         default_behavior=default_loader_behavior,
                     )
 
-                self._data_loaders[run_id].append(main_node)
-
             if node.tags.get("hamilton.data_saver", None) is not None:
                 self._data_savers[run_id].append(node.name)
 
@@ -1104,9 +1101,8 @@ class HamiltonCacheAdapter(
         self.code_versions[run_id] = self.resolve_code_versions(
             run_id=run_id, final_vars=final_vars, inputs=inputs, overrides=overrides
         )
-        # the empty `._data_loaders` and `._data_savers` need to be instantiated before calling
-        # `self.resolve_behaviors` because it appends to them
-        self._data_loaders[run_id] = []
+        # the empty `._data_savers` needs to be instantiated before calling
+        # `self.resolve_behaviors` because it appends to it
         self._data_savers[run_id] = []
         self.behaviors[run_id] = self.resolve_behaviors(run_id=run_id)
 
@@ -1269,13 +1265,6 @@ class HamiltonCacheAdapter(
             ):
                 cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
 
-                # nodes collected in `._data_loaders` return tuples of (result, metadata)
-                # where metadata often includes a timestamp. To ensure we provide a consistent
-                # `data_version` / hash, we only hash the result part of the materializer return
-                # value and discard the metadata.
-                if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                    result = result[0]
-
                 data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
                 # nodes collected in `._data_savers` return a dictionary of metadata
@@ -1358,13 +1347,6 @@ class HamiltonCacheAdapter(
                 task_id=task_id,
             )
 
-            # nodes collected in `._data_loaders` return tuples of (result, metadata)
-            # where metadata often includes a timestamp. To ensure we provide a consistent
-            # `data_version` / hash, we only hash the result part of the materializer return
-            # value and discard the metadata.
-            if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                result = result[0]
-
             data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
             # nodes collected in `._data_savers` return a dictionary of metadata
-- 
2.43.0


From 18e82bb18b607432ccda02cb5ad9e51f265fb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:03 +0000
Subject: [PATCH 14/49] fix: tracking client lost updates queued at shutdown

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 5512164..7348c8c 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -251,6 +251,9 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                     self.flush(batch)
                     batch = []
                     last_flush_time = time.time()
+        # stop() was called -- send what we took off the queue but did not flush yet
+        if batch:
+            self.flush(batch)
 
     def flush(self, batch):
         """Flush the batch (send it to the backend or process it)."""
@@ -288,6 +291,9 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         while not self.data_queue.empty():
             try:
                 item = self.data_queue.get_nowait()
+                if item is None:
+                    # signal for the worker thread, which has stopped already
+                    continue
                 self.flush([item])
             except queue.Empty:
                 break
-- 
2.43.0


From 26c7f39d00d1aa81d57a49969f32dc7f68e3c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:03 +0000
Subject: [PATCH 15/49] fix: failed delivery ended the tracking client's worker
 thread

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 7348c8c..d84b68e 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -262,21 +262,21 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            response = requests.put(
-                f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                json={
-                    "attributes": make_json_safe(attributes_list),
-                    "task_updates": make_json_safe(task_updates_list),
-                },
-                headers=self._common_headers(),
-                verify=self.verify,
-            )
             try:
+                response = requests.put(
+                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                    json={
+                        "attributes": make_json_safe(attributes_list),
+                        "task_updates": make_json_safe(task_updates_list),
+                    },
+                    headers=self._common_headers(),
+                    verify=self.verify,
+                )
                 response.raise_for_status()
                 logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-            except HTTPError:
+            except Exception:
+                # Do not raise -- this would end the worker thread, and with it all further updates.
                 logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                raise
 
     def stop(self):
         """Stop the logger and process remaining events."""
-- 
2.43.0


From e771f7a8387f1f777e2aa3a9c0d3efaf1ef789a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:03 +0000
Subject: [PATCH 16/49] fix: sync tracker mixed up the branches of parallel
 nodes

---
 ui/sdk/src/hamilton_sdk/adapters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 23cbb3a..016c672 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -183,8 +183,9 @@ class HamiltonTracker(
         task_run = TaskRun(node_name=node_.name, is_in_sample=in_sample)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        # the same node runs several times in parallel blocks -- the task ID tells them apart
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -258,7 +259,7 @@ class HamiltonTracker(
     ):
         """Captures end of node execution."""
         logger.debug("post_node_execute %s %s", run_id, task_id)
-        task_run: TaskRun = self.task_runs[run_id][node_.name]
+        task_run: TaskRun = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
 
@@ -322,7 +323,7 @@ class HamiltonTracker(
                 attribute_role="result_summary",
             )
             attributes.append(other_attr)
-        tracking_state.update_task(node_.name, task_run)
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
         task_update = dict(
             node_template_name=node_.name,
             node_name=get_node_name(node_, task_id),
-- 
2.43.0


From 5c7c4d96c65a65496682a0ab40877d51db381d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 17/49] fix: tracker reused DAG templates of collected graphs

---
 ui/sdk/src/hamilton_sdk/adapters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 016c672..443bc72 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -4,6 +4,7 @@ import logging
 import os
 import random
 import traceback
+import weakref
 from datetime import timezone
 from types import ModuleType
 from typing import Any, Callable, Dict, List, Optional, Union
@@ -137,6 +138,8 @@ class HamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # another graph can get the same ID once this one is gone
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     def pre_graph_execute(
         self,
@@ -472,6 +475,8 @@ class AsyncHamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # another graph can get the same ID once this one is gone
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     async def pre_graph_execute(
         self,
-- 
2.43.0


From 910324756432bdb878c3f54e89c62fd3b9c50e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 18/49] fix: error message creation masked the failure of a
 node

---
 hamilton/execution/graph_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index 613d1d6..f2f286d 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -108,7 +108,12 @@ def create_input_string(kwargs: dict) -> str:
     pp = pprint.PrettyPrinter(width=80)
     inputs = {}
     for k, v in kwargs.items():
-        item_repr = repr(v)
+        try:
+            item_repr = repr(v)
+        except Exception as e:
+            # describing the inputs must not replace the error we're describing them for
+            inputs[k] = f"<{type(v).__name__}: repr() raised {type(e).__name__}>"
+            continue
         if len(item_repr) > 50:
             item_repr = item_repr[:50] + "..."
         else:
-- 
2.43.0


From 66c1be9632dc82ffecf1626bfd203d985b68e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 19/49] fix: connection errors ended the async tracking
 client's worker

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index d84b68e..131f8a3 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -576,22 +576,22 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            async with aiohttp.ClientSession() as session:
-                async with session.put(
-                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                    json={
-                        "attributes": make_json_safe(attributes_list),
-                        "task_updates": make_json_safe(task_updates_list),
-                    },
-                    headers=self._common_headers(),
-                    ssl=self.ssl,
-                ) as response:
-                    try:
+            try:
+                async with aiohttp.ClientSession() as session:
+                    async with session.put(
+                        f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                        json={
+                            "attributes": make_json_safe(attributes_list),
+                            "task_updates": make_json_safe(task_updates_list),
+                        },
+                        headers=self._common_headers(),
+                        ssl=self.ssl,
+                    ) as response:
                         response.raise_for_status()
                         logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-                    except HTTPError:
-                        logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                        # zraise
+            except Exception:
+                # anything raised here would end the worker, and with it all further updates
+                logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
 
     async def worker(self):
         """Worker thread to process the queue"""
-- 
2.43.0


From 93ee82561fd5bd654b8f16fcf77a814ddeb60dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 20/49] fix: async tracking client started several workers

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 131f8a3..442aa6c 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -565,9 +565,13 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
         self.data_queue = asyncio.Queue()
         self.running = True
         self.max_batch_size = 100
+        self.worker_task = None
 
     async def ainit(self):
-        asyncio.create_task(self.worker())
+        # drivers sharing the tracker can get here concurrently. A second worker on the same queue
+        # would deliver updates out of order.
+        if self.worker_task is None:
+            self.worker_task = asyncio.create_task(self.worker())
 
     async def flush(self, batch):
         """Flush the batch (send it to the backend or process it)."""
-- 
2.43.0


From a2c623485daff3151d672b806571be012f69dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 21/49] fix: disabling telemetry made contrib and dataflow
 functions fail

---
 hamilton/dataflows/__init__.py | 13 +++++++++++--
 hamilton/telemetry.py          |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 4ee8568..9a1be31 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -43,6 +43,15 @@ USER_PATH = DATAFLOW_FOLDER + "/" + COMMON_PATH + "/user/{user}/{dataflow}"
 OFFICIAL_PATH = DATAFLOW_FOLDER + "/" + COMMON_PATH + "/dagworks/{dataflow}"
 
 
+def _send_telemetry(event_json: dict):
+    """Sends the event if telemetry is enabled. Telemetry must not get in the way, so this never raises."""
+    if telemetry.is_telemetry_enabled():
+        try:
+            telemetry.send_event_json(event_json)
+        except Exception as e:
+            logger.debug(f"Failed to send telemetry. Encountered: {e}")
+
+
 def _track_function_call(call_fn: Callable) -> Callable:
     """Decorator to wrap the __call__ to count usage.
 
@@ -53,7 +62,7 @@ def _track_function_call(call_fn: Callable) -> Callable:
     @functools.wraps(call_fn)
     def track_call(*args, **kwargs):
         event_json = telemetry.create_dataflow_function_invocation_event_json(call_fn.__name__)
-        telemetry.send_event_json(event_json)
+        _send_telemetry(event_json)
         return call_fn(*args, **kwargs)
 
     return track_call
@@ -74,7 +83,7 @@ def _track_download(is_official: bool, user: Optional[str], dataflow_name: str,
     event_json = telemetry.create_dataflow_download_event_json(
         category, user, dataflow_name, version
     )
-    telemetry.send_event_json(event_json)
+    _send_telemetry(event_json)
 
 
 def _get_request(url: str) -> Tuple[int, str]:
diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index a147909..531726d 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -359,14 +359,14 @@ def create_and_send_contrib_use(module_name: str, version: str):
         dataflow = parts[-1]
         event_json = create_dataflow_download_event_json(category, user, dataflow, version)
         event_json["event"] = DATAFLOW_IMPORT  # overwrite the event name.
+        if is_telemetry_enabled():
+            send_event_json(event_json)
     except Exception as e:
         # capture any exception!
         if logger.isEnabledFor(logging.DEBUG):
             logger.debug(
                 f"Encountered error while constructing create_and_send_contrib_use json:\n{e}"
             )
-    else:
-        send_event_json(event_json)
 
 
 def _send_event_json(event_json: dict):
-- 
2.43.0


From e9b0e9c4f95bd4c22c797a2d18e2887cbb915c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 22/49] fix: a corrupt or %-containing configuration file broke
 import hamilton

---
 hamilton/registry.py  | 8 ++++++--
 hamilton/telemetry.py | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/hamilton/registry.py b/hamilton/registry.py
index 3654d64..9dd0d45 100644
--- a/hamilton/registry.py
+++ b/hamilton/registry.py
@@ -49,7 +49,7 @@ DATAFRAME_TYPE = "dataframe_type"
 
 def load_autoload_config() -> configparser.ConfigParser:
     """Load the Hamilton config file and set the autoloading environment variable"""
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read(DEFAULT_CONFIG_LOCATION)
 
     if config.has_option("DEFAULT", HAMILTON_AUTOLOAD_ENV):
@@ -58,7 +58,11 @@ def load_autoload_config() -> configparser.ConfigParser:
     return config
 
 
-load_autoload_config()
+try:
+    load_autoload_config()
+except (configparser.Error, ValueError) as e:
+    # a broken config file must not make Hamilton impossible to import
+    logger.warning(f"Ignoring the config file {DEFAULT_CONFIG_LOCATION}. Could not read it: {e}")
 
 
 def load_extension(plugin_module: ExtensionName):
diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index 531726d..9579aac 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -62,7 +62,8 @@ def _load_config(config_location: str) -> configparser.ConfigParser:
     Creates the anonymous ID if it does not exist, writes it back if so.
     :param config_location: location of the config file.
     """
-    config = configparser.ConfigParser()
+    # no interpolation: a stray `%` in the file must not make accessing its values fail
+    config = configparser.ConfigParser(interpolation=None)
     try:
         with open(config_location) as f:
             config.read_file(f)
@@ -99,9 +100,9 @@ def _check_config_and_environ_for_telemetry_flag(
             )
     if os.environ.get("HAMILTON_TELEMETRY_ENABLED") is not None:
         env_value = os.environ.get("HAMILTON_TELEMETRY_ENABLED")
-        # set the value
-        config_obj["DEFAULT"]["telemetry_enabled"] = env_value
         try:
+            # set the value
+            config_obj["DEFAULT"]["telemetry_enabled"] = env_value
             telemetry_enabled = config_obj.getboolean("DEFAULT", "telemetry_enabled")
         except ValueError as e:
             logger.debug(
-- 
2.43.0


From 968c4076d6a67b2b5836433aa8ddfcc73680d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 23/49] fix: user configuration file was overwritten
 non-atomically

---
 hamilton/registry.py  | 35 ++++++++++++++++++++++++++++-------
 hamilton/telemetry.py | 12 ++++++++----
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/hamilton/registry.py b/hamilton/registry.py
index 9dd0d45..51d2938 100644
--- a/hamilton/registry.py
+++ b/hamilton/registry.py
@@ -1,11 +1,13 @@
 import collections
 import configparser
+import contextlib
 import functools
 import importlib
 import logging
 import os
 import pathlib
-from typing import Any, Dict, Literal, Optional, Tuple, Type, get_args
+import uuid
+from typing import Any, Dict, Literal, Optional, Tuple, Type, Union, get_args
 
 logger = logging.getLogger(__name__)
 
@@ -47,10 +49,31 @@ COLUMN_TYPE = "column_type"
 DATAFRAME_TYPE = "dataframe_type"
 
 
+def write_config(config: configparser.ConfigParser, config_location: Union[str, pathlib.Path]):
+    """Writes the Hamilton config file.
+
+    It replaces the file as a whole: a failed or interrupted write must not lose the settings in it,
+    and other processes must not read a half-written file.
+    """
+    config_location = os.path.realpath(config_location)
+    tmp_location = f"{config_location}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_location, "w") as f:
+            config.write(f)
+        os.replace(tmp_location, config_location)
+    except Exception:
+        with contextlib.suppress(OSError):
+            os.unlink(tmp_location)
+        raise
+
+
 def load_autoload_config() -> configparser.ConfigParser:
     """Load the Hamilton config file and set the autoloading environment variable"""
     config = configparser.ConfigParser(interpolation=None)
-    config.read(DEFAULT_CONFIG_LOCATION)
+    # not `config.read()`: it ignores files it fails to read, which would then be overwritten
+    with contextlib.suppress(FileNotFoundError):
+        with open(DEFAULT_CONFIG_LOCATION) as f:
+            config.read_file(f)
 
     if config.has_option("DEFAULT", HAMILTON_AUTOLOAD_ENV):
         os.environ[HAMILTON_AUTOLOAD_ENV] = config.get("DEFAULT", HAMILTON_AUTOLOAD_ENV)
@@ -60,7 +83,7 @@ def load_autoload_config() -> configparser.ConfigParser:
 
 try:
     load_autoload_config()
-except (configparser.Error, ValueError) as e:
+except (configparser.Error, ValueError, OSError) as e:
     # a broken config file must not make Hamilton impossible to import
     logger.warning(f"Ignoring the config file {DEFAULT_CONFIG_LOCATION}. Could not read it: {e}")
 
@@ -133,8 +156,7 @@ def config_enable_autoload():
         config.add_section("DEFAULT")
 
     config.remove_option("DEFAULT", HAMILTON_AUTOLOAD_ENV)
-    with DEFAULT_CONFIG_LOCATION.open("w") as f:
-        config.write(f)
+    write_config(config, DEFAULT_CONFIG_LOCATION)
 
 
 def config_disable_autoload():
@@ -149,8 +171,7 @@ def config_disable_autoload():
         config.add_section("DEFAULT")
 
     config.set("DEFAULT", HAMILTON_AUTOLOAD_ENV, "0")
-    with DEFAULT_CONFIG_LOCATION.open("w") as f:
-        config.write(f)
+    write_config(config, DEFAULT_CONFIG_LOCATION)
 
 
 def register_types(extension_name: str, dataframe_type: Type, column_type: Optional[Type]):
diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index 9579aac..3271d2f 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -27,13 +27,13 @@ from typing import Dict, List, Optional
 from urllib import request
 
 try:
-    from . import base
+    from . import base, registry
     from .lifecycle import base as lifecycle_base
     from .version import VERSION
 except ImportError:
     from version import VERSION
 
-    from hamilton import base
+    from hamilton import base, registry
     from hamilton.lifecycle import base as lifecycle_base
 
 logger = logging.getLogger(__name__)
@@ -64,11 +64,15 @@ def _load_config(config_location: str) -> configparser.ConfigParser:
     """
     # no interpolation: a stray `%` in the file must not make accessing its values fail
     config = configparser.ConfigParser(interpolation=None)
+    write_back = True
     try:
         with open(config_location) as f:
             config.read_file(f)
+    except FileNotFoundError:
+        config["DEFAULT"] = {}
     except Exception:
         config["DEFAULT"] = {}
+        write_back = False  # we don't know the settings in the file, so we can't keep them
     else:
         if "DEFAULT" not in config:
             config["DEFAULT"] = {}
@@ -76,8 +80,8 @@ def _load_config(config_location: str) -> configparser.ConfigParser:
     if "anonymous_id" not in config["DEFAULT"]:
         config["DEFAULT"]["anonymous_id"] = str(uuid.uuid4())
         try:
-            with open(config_location, "w") as f:
-                config.write(f)
+            if write_back:
+                registry.write_config(config, config_location)
         except Exception:
             pass
     return config
-- 
2.43.0


From ce0db5a786e0b511740e034f9e84de2f7c759ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 24/49] fix: PrintLn failed in task-based and concurrent
 executions

---
 hamilton/lifecycle/default.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 313315b..9726626 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -102,6 +102,7 @@ class PrintLn(NodeExecutionHook):
         node_tags: Dict[str, Any],
         node_kwargs: Dict[str, Any],
         task_id: Optional[str],
+        run_id: Optional[str] = None,
         **future_kwargs: Any,
     ):
         """Runs before a node executes. Prints out the node name and inputs if verbosity is 2.
@@ -110,12 +111,13 @@ class PrintLn(NodeExecutionHook):
         :param node_tags: Tags of the node
         :param node_kwargs: Keyword arguments of the node
         :param task_id: ID of the task that the node is in, if any
+        :param run_id: ID of the run, used to tell apart executions that share this adapter
         :param future_kwargs: Additional keyword arguments that may be passed to the hook yet are ignored for now
         """
         if not should_run_node(node_name, node_tags, self.node_filter):
             return
         node_unique_id = self._format_node_name(node_name, task_id)
-        self.timer_dict[node_unique_id] = time.time()
+        self.timer_dict[(run_id, node_unique_id)] = time.time()
         message = f"Executing node: {node_unique_id}."
         if self.verbosity == 2:
             message += f" Inputs: \n{pprint.pformat(node_kwargs)}"
@@ -131,6 +133,7 @@ class PrintLn(NodeExecutionHook):
         error: Optional[Exception],
         success: bool,
         task_id: Optional[str],
+        run_id: Optional[str] = None,
         **future_kwargs: Any,
     ):
         """Runs after a node executes. Prints out the node name and time it took, the output if verbosity is 1.
@@ -142,12 +145,13 @@ class PrintLn(NodeExecutionHook):
         :param error: Error of the node
         :param success: Whether the node was successful or not
         :param task_id: ID of the task that the node is in, if any
+        :param run_id: ID of the run, used to tell apart executions that share this adapter
         :param future_kwargs: Additional keyword arguments that may be passed to the hook yet are ignored for now
         """
         if not should_run_node(node_name, node_tags, self.node_filter):
             return
         node_unique_id = self._format_node_name(node_name, task_id)
-        time_delta = time.time() - self.timer_dict[node_unique_id]
+        time_delta = time.time() - self.timer_dict.pop((run_id, node_unique_id))
         time_delta_formatted = self._format_time_delta(time_delta)
         message = f"Finished debugging node: {node_unique_id} in {time_delta_formatted}. Status: {'Success' if success else 'Failure'}."
         if self.verbosity == 2:
@@ -156,7 +160,6 @@ class PrintLn(NodeExecutionHook):
             else:
                 message += f" Error: \n{pprint.pformat(error)}"
         self.print_fn(message)
-        del self.timer_dict[node_name]
 
 
 class PDBDebugger(NodeExecutionHook, NodeExecutionMethod):
-- 
2.43.0


From 5f108d2e7f6490d92d4403a6186df889b2c92d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 25/49] fix: type checker masked the error of a failing node

---
 hamilton/lifecycle/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 9726626..853bdae 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -520,7 +520,7 @@ class FunctionInputOutputTypeChecker(NodeExecutionHook):
         **future_kwargs: Any,
     ):
         """Checks that the result type matches the expected node return type."""
-        if self.check_output:
+        if self.check_output and success:
             # Replace the isinstance check in your code with check_instance
             if not htypes.check_instance(result, node_return_type):
                 raise TypeError(
-- 
2.43.0


From 8ecac7d0e705af1a7ba26620f344d8544d47e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 26/49] fix: type checker failed on Parallelizable and Collect

---
 hamilton/htypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/htypes.py b/hamilton/htypes.py
index e1db63a..4a2402f 100644
--- a/hamilton/htypes.py
+++ b/hamilton/htypes.py
@@ -395,6 +395,12 @@ def check_instance(obj: Any, type_: Any) -> bool:
             return any(check_instance(obj, t) for t in type_.__args__)
         elif origin is Literal:
             return obj in type_.__args__
+        elif origin in (Parallelizable, Collect):
+            # these are marker protocols that do not support isinstance
+            if not hasattr(obj, "__iter__"):
+                return False
+            if not isinstance(obj, (list, set, tuple)):
+                return True  # we cannot look at the elements without consuming them
         # Check if the object is an instance of the origin of the type
         elif not isinstance(obj, origin):
             return False
-- 
2.43.0


From c468af23edf6a7ed3a1e556a16bae0f778a178cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 27/49] fix: OpenTelemetryTracer could not be shared between
 drivers

---
 hamilton/plugins/h_opentelemetry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hamilton/plugins/h_opentelemetry.py b/hamilton/plugins/h_opentelemetry.py
index 51f73fe..1ab70b0 100644
--- a/hamilton/plugins/h_opentelemetry.py
+++ b/hamilton/plugins/h_opentelemetry.py
@@ -79,7 +79,8 @@ class OpenTelemetryTracer(NodeExecutionHook, GraphExecutionHook, TaskExecutionHo
         else:
             self.tracer = trace.get_tracer(__name__)
 
-        self.graph = None
+        # run_id -> graph, as one tracer can be shared by multiple drivers/executions
+        self.graphs = {}
 
     def run_before_graph_execution(
         self,
@@ -92,7 +93,7 @@ class OpenTelemetryTracer(NodeExecutionHook, GraphExecutionHook, TaskExecutionHo
         run_id: str,
         **kwargs,
     ):
-        self.graph = graph
+        self.graphs[run_id] = graph
 
         attributes = {
             "graph_version": graph.version,
@@ -111,11 +112,12 @@ class OpenTelemetryTracer(NodeExecutionHook, GraphExecutionHook, TaskExecutionHo
         node_name: str,
         node_tags: dict,
         node_return_type: type,
+        run_id: str,
         **kwargs: Any,
     ):
         attributes = {
             "type": str(node_return_type),
-            "node_version": self.graph[node_name].version,
+            "node_version": self.graphs[run_id][node_name].version,
             "tags": json.dumps(node_tags),
         }
 
@@ -145,5 +147,6 @@ class OpenTelemetryTracer(NodeExecutionHook, GraphExecutionHook, TaskExecutionHo
     def run_after_node_execution(self, *, error: Optional[Exception], **kwargs):
         _exit_span(error)
 
-    def run_after_graph_execution(self, *, error: Optional[Exception], **kwargs):
+    def run_after_graph_execution(self, *, error: Optional[Exception], run_id: str, **kwargs):
+        self.graphs.pop(run_id, None)
         _exit_span(error)
-- 
2.43.0


From a9593acc093c2056b46e4596d04eac1d70c83f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 28/49] fix: Slack delivery failure replaced the error of the
 node

---
 hamilton/plugins/h_slack.py | 173 +++++++++++++++++++-----------------
 1 file changed, 90 insertions(+), 83 deletions(-)

diff --git a/hamilton/plugins/h_slack.py b/hamilton/plugins/h_slack.py
index 306f9f3..0751526 100644
--- a/hamilton/plugins/h_slack.py
+++ b/hamilton/plugins/h_slack.py
@@ -1,83 +1,90 @@
-import traceback
-from typing import Any, Dict, Optional
-
-from slack_sdk import WebClient
-
-from hamilton.execution.graph_functions import create_input_string
-from hamilton.lifecycle import NodeExecutionHook
-
-
-class SlackNotifier(NodeExecutionHook):
-    """This is a adapter that sends a message to a slack channel when a node is executed & fails.
-
-    Note: you need to have slack_sdk installed for this to work.
-    If you don't have it installed, you can install it with `pip install slack_sdk`
-    (or `pip install sf-hamilton[slack]` -- use quotes if you're using zsh).
-
-    .. code-block:: python
-
-        from hamilton.plugins import h_slack
-
-        dr = (
-            driver.Builder()
-            .with_config({})
-            .with_modules(some_modules)
-            .with_adapters(h_slack.SlackNotifier(api_key="YOUR_API_KEY", channel="YOUR_CHANNEL"))
-            .build()
-        )
-        # and then when you call .execute() or .materialize() you'll get a message in your slack channel!
-
-    """
-
-    def __init__(self, api_key: str, channel: str, **kwargs):
-        """Constructor.
-
-        :param api_key: API key to use for sending messages.
-        :param channel: Channel to send messages to.
-        """
-        self.slack_client = WebClient(api_key)
-        self.channel = channel
-        self.kwargs = kwargs
-
-    def _send_message(self, message: str):
-        """Sends a message to the slack channel."""
-        if self.slack_client is not None:
-            self.slack_client.chat_postMessage(channel=self.channel, text=message)
-
-    def run_before_node_execution(
-        self,
-        node_name: str,
-        node_tags: Dict[str, Any],
-        node_kwargs: Dict[str, Any],
-        node_return_type: type,
-        **future_kwargs: Any,
-    ):
-        """Placeholder required to subclass `NodeExecutionMethod`"""
-        pass
-
-    def run_after_node_execution(
-        self,
-        node_name: str,
-        node_tags: Dict[str, Any],
-        node_kwargs: Dict[str, Any],
-        node_return_type: type,
-        result: Any,
-        error: Optional[Exception],
-        success: bool,
-        task_id: Optional[str],
-        run_id: str,
-        **future_kwargs: Any,
-    ):
-        """Sends a message to the slack channel after a node is executed."""
-        if error:
-            message = (
-                f"*Error Executing Node: `{node_name}`*\n"
-                f"> *Run ID:* {run_id}\n"
-                f"> *Task ID:* {task_id}\n"
-                f"> *Error:* {str(error)}\n"
-                f"> *Stack Trace:*\n> ```\n{''.join(traceback.format_exception(type(error), error, error.__traceback__))}```\n"
-                f"> *Node Tags:* `{node_tags}`\n"
-                f"> *Node Kwargs:* ```{create_input_string(node_kwargs)}```\n"
-                f"> *Return Type:* `{node_return_type}`\n"
-            )
-            self._send_message(message)
+import logging
+import traceback
+from typing import Any, Dict, Optional
+
+from slack_sdk import WebClient
+
+from hamilton.execution.graph_functions import create_input_string
+from hamilton.lifecycle import NodeExecutionHook
+
+logger = logging.getLogger(__name__)
+
+
+class SlackNotifier(NodeExecutionHook):
+    """This is a adapter that sends a message to a slack channel when a node is executed & fails.
+
+    Note: you need to have slack_sdk installed for this to work.
+    If you don't have it installed, you can install it with `pip install slack_sdk`
+    (or `pip install sf-hamilton[slack]` -- use quotes if you're using zsh).
+
+    .. code-block:: python
+
+        from hamilton.plugins import h_slack
+
+        dr = (
+            driver.Builder()
+            .with_config({})
+            .with_modules(some_modules)
+            .with_adapters(h_slack.SlackNotifier(api_key="YOUR_API_KEY", channel="YOUR_CHANNEL"))
+            .build()
+        )
+        # and then when you call .execute() or .materialize() you'll get a message in your slack channel!
+
+    """
+
+    def __init__(self, api_key: str, channel: str, **kwargs):
+        """Constructor.
+
+        :param api_key: API key to use for sending messages.
+        :param channel: Channel to send messages to.
+        """
+        self.slack_client = WebClient(api_key)
+        self.channel = channel
+        self.kwargs = kwargs
+
+    def _send_message(self, message: str):
+        """Sends a message to the slack channel."""
+        if self.slack_client is not None:
+            self.slack_client.chat_postMessage(channel=self.channel, text=message)
+
+    def run_before_node_execution(
+        self,
+        node_name: str,
+        node_tags: Dict[str, Any],
+        node_kwargs: Dict[str, Any],
+        node_return_type: type,
+        **future_kwargs: Any,
+    ):
+        """Placeholder required to subclass `NodeExecutionMethod`"""
+        pass
+
+    def run_after_node_execution(
+        self,
+        node_name: str,
+        node_tags: Dict[str, Any],
+        node_kwargs: Dict[str, Any],
+        node_return_type: type,
+        result: Any,
+        error: Optional[Exception],
+        success: bool,
+        task_id: Optional[str],
+        run_id: str,
+        **future_kwargs: Any,
+    ):
+        """Sends a message to the slack channel after a node is executed."""
+        if error:
+            message = (
+                f"*Error Executing Node: `{node_name}`*\n"
+                f"> *Run ID:* {run_id}\n"
+                f"> *Task ID:* {task_id}\n"
+                f"> *Error:* {str(error)}\n"
+                f"> *Stack Trace:*\n> ```\n{''.join(traceback.format_exception(type(error), error, error.__traceback__))}```\n"
+                f"> *Node Tags:* `{node_tags}`\n"
+                f"> *Node Kwargs:* ```{create_input_string(node_kwargs)}```\n"
+                f"> *Return Type:* `{node_return_type}`\n"
+            )
+            try:
+                self._send_message(message)
+            except Exception:
+                # a notification that cannot be delivered must not replace the error it reports
+                logger.exception(f"Failed to notify slack of the failure of node {node_name}.")
-- 
2.43.0


From f2b924f7fa9ff2317166ac9b2424b02b87517f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 29/49] fix: type checker rejected heterogeneous tuples

---
 hamilton/htypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/htypes.py b/hamilton/htypes.py
index 4a2402f..7cbc243 100644
--- a/hamilton/htypes.py
+++ b/hamilton/htypes.py
@@ -428,6 +428,12 @@ def check_instance(obj: Any, type_: Any) -> bool:
                 # Return the result
                 return all_items_meet_condition
 
+            # If the type is a tuple with one type per position, e.g. Tuple[int, dict]
+            elif origin is tuple and len(element_type) > 1 and element_type[-1] is not Ellipsis:
+                return len(obj) == len(element_type) and all(
+                    check_instance(i, t) for i, t in zip(obj, element_type)
+                )
+
             # If the object is a list, set, or tuple
             elif isinstance(obj, (list, set, tuple)):
                 element_type = element_type[0]
-- 
2.43.0


From a3cfaba9b20caffc3abd1b28f300926f58220cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 30/49] fix: PrintLn failed on values that cannot be printed

---
 hamilton/lifecycle/default.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 853bdae..ac56ff4 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -72,6 +72,14 @@ class PrintLn(NodeExecutionHook):
             return f"{task_id}:{node_name}"
         return node_name
 
+    @staticmethod
+    def _format_value(value: Any) -> str:
+        """Formats a value, tolerating values that cannot be represented as printing should never break execution."""
+        try:
+            return pprint.pformat(value)
+        except Exception as e:
+            return f"<{type(value).__name__} that could not be formatted: {type(e).__name__}>"
+
     def __init__(
         self,
         verbosity: int = 1,
@@ -120,7 +128,7 @@ class PrintLn(NodeExecutionHook):
         self.timer_dict[(run_id, node_unique_id)] = time.time()
         message = f"Executing node: {node_unique_id}."
         if self.verbosity == 2:
-            message += f" Inputs: \n{pprint.pformat(node_kwargs)}"
+            message += f" Inputs: \n{self._format_value(node_kwargs)}"
         self.print_fn(message)
 
     def run_after_node_execution(
@@ -156,9 +164,9 @@ class PrintLn(NodeExecutionHook):
         message = f"Finished debugging node: {node_unique_id} in {time_delta_formatted}. Status: {'Success' if success else 'Failure'}."
         if self.verbosity == 2:
             if success:
-                message += f" Result: \n{pprint.pformat(result)}\n"
+                message += f" Result: \n{self._format_value(result)}\n"
             else:
-                message += f" Error: \n{pprint.pformat(error)}"
+                message += f" Error: \n{self._format_value(error)}"
         self.print_fn(message)
 
 
-- 
2.43.0


From c33c5d1a5a883071f857758fe27cbaf42d1c444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 31/49] fix: materialize masked early errors when hooks are
 registered

---
 hamilton/driver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 83ab7b6..cfb5502 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1644,6 +1644,7 @@ class Driver:
         final_vars = self._create_final_vars(additional_vars)
         # This is so the finally logging statement does not accidentally die
         materializer_vars = []
+        function_graph = self.graph
         try:
             materializer_factories, extractor_factories = self._process_materializers(materializers)
             if len(materializer_factories) == len(final_vars) == 0:
-- 
2.43.0


From 424e35e4435c531d065b60aec8eb9db04769c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 32/49] fix: wall clock steps delayed delivery of tracking
 updates

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 442aa6c..90c1de1 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -226,7 +226,7 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
     def worker(self):
         """Worker thread to process the queue."""
         batch = []
-        last_flush_time = time.time()
+        last_flush_time = time.monotonic()
 
         while self.running:
             try:
@@ -240,17 +240,17 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                 # Check if batch is full or flush interval has passed
                 if (
                     len(batch) >= self.max_batch_size
-                    or (time.time() - last_flush_time) >= self.flush_interval
+                    or (time.monotonic() - last_flush_time) >= self.flush_interval
                 ):
                     self.flush(batch)
                     batch = []
-                    last_flush_time = time.time()
+                    last_flush_time = time.monotonic()
             except queue.Empty:
                 # Flush on timeout if there's any data
                 if batch:
                     self.flush(batch)
                     batch = []
-                    last_flush_time = time.time()
+                    last_flush_time = time.monotonic()
         # stop() was called -- send what we took off the queue but did not flush yet
         if batch:
             self.flush(batch)
@@ -600,7 +600,7 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
     async def worker(self):
         """Worker thread to process the queue"""
         batch = []
-        last_flush_time = time.time()
+        last_flush_time = time.monotonic()
         logger.debug("Starting worker")
         while True:
             logger.debug(
@@ -620,11 +620,11 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
             # Check if batch is full or flush interval has passed
             if (
                 len(batch) >= self.max_batch_size
-                or (time.time() - last_flush_time) >= self.flush_interval
+                or (time.monotonic() - last_flush_time) >= self.flush_interval
             ):
                 await self.flush(batch)
                 batch = []
-                last_flush_time = time.time()
+                last_flush_time = time.monotonic()
 
     def _common_headers(self) -> Dict[str, Any]:
         """Yields the common headers for all requests.
-- 
2.43.0


From 3cf3b06dfc3bb0b42363ac14f87e30dbcd38c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 33/49] fix: do not render expanded values in a debug message

---
 hamilton/execution/state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index f121826..2da4fc9 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -377,9 +377,11 @@ class ExecutionState:
                 parameterization_values = {
                     str(i): item for i, item in enumerate(parameterization_results)
                 }
+                # lazily formatted: rendering the values can be slow, or not possible at all
                 logger.debug(
-                    f"Completed an expand step, parameterizing: {input_to_parameterize} "
-                    f"over values : {parameterization_values}"
+                    "Completed an expand step, parameterizing: %s over values : %s",
+                    input_to_parameterize,
+                    parameterization_values,
                 )
                 self.realize_parameterized_group(
                     completed_task.task_id, parameterization_values, input_to_parameterize
-- 
2.43.0


From 38ef7134432ab013aff50ad62d47a069f31f8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 34/49] fix: deleting all metadata keeps the SQLite schema

---
 hamilton/caching/stores/sqlite.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 8019031..90087c0 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -183,13 +183,12 @@ class SQLiteMetadataStore(MetadataStore):
             connection.execute("DELETE FROM cache_metadata WHERE cache_key = ?", (cache_key,))
 
     def delete_all(self) -> None:
-        """Delete all existing tables from the database"""
-        cur = self.connection.cursor()
-
-        for table_name in ["run_ids", "history", "cache_metadata"]:
-            cur.execute(f"DROP TABLE IF EXISTS {table_name};")
-
-        self.connection.commit()
+        """Delete all entries from the database. The tables are kept, such that the store
+        remains usable.
+        """
+        with self.connection as connection:
+            for table_name in ["run_ids", "history", "cache_metadata"]:
+                connection.execute(f"DELETE FROM {table_name};")
 
     def exists(self, cache_key: str) -> bool:
         """boolean check if a ``data_version`` is found for ``cache_key``
-- 
2.43.0


From 11674ba25ae9ef37ee5997b15b6353bed484003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 35/49] fix: the file result store deletes only its own result
 files

---
 hamilton/caching/stores/file.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 3d245dc..8fef7fc 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -3,7 +3,7 @@ import os
 import shutil
 import uuid
 from pathlib import Path
-from typing import Any, Optional
+from typing import Any, List, Optional
 
 try:
     from typing import override
@@ -127,11 +127,29 @@ class FileResultStore(ResultStore):
 
     @override
     def delete_all(self) -> None:
-        shutil.rmtree(self.path)
         self.path.mkdir(exist_ok=True)
+        # the directory can hold other files, e.g., the SQLite metadata store or logs;
+        # only delete results, materialized results, and leftover temporary files
+        result_names = {file_path.name for file_path in self._result_paths()}
+        for file_path in list(self.path.iterdir()):
+            if file_path.name in result_names or file_path.stem in result_names:
+                if file_path.is_dir():
+                    shutil.rmtree(file_path)
+                else:
+                    file_path.unlink(missing_ok=True)
+            elif file_path.name.startswith(".") and file_path.suffix == ".tmp":
+                file_path.unlink(missing_ok=True)
 
     def delete_expired(self) -> None:
-        for file_path in self.path.iterdir():
-            stored_result = self._load_result_from_path(file_path)
+        for file_path in self._result_paths():
+            try:
+                stored_result = self._load_result_from_path(file_path)
+            except Exception:
+                # results that can't be loaded are handled at retrieval
+                continue
             if stored_result and stored_result.expired:
                 file_path.unlink(missing_ok=True)
+
+    def _result_paths(self) -> List[Path]:
+        """Files named after a ``data_version``; all other files have a suffix."""
+        return [file_path for file_path in self.path.iterdir() if file_path.suffix == ""]
-- 
2.43.0


From 2368e29e95cc1e3093bb025886c51df1907bd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 36/49] fix: loading an in-memory result store skips missing
 results

---
 hamilton/caching/stores/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index fabf9f9..019ec90 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -275,8 +275,9 @@ class InMemoryResultStore(ResultStore):
                     data_versions_to_retrieve.add(node_metadata["data_version"])
 
         for data_version in data_versions_to_retrieve:
-            # TODO disambiguate "result is None" from the sentinel value when `data_version`
-            # is not found in `result_store`.
+            # ``.get()`` returns None for a missing result, which is also a valid result
+            if result_store.exists(data_version) is False:
+                continue
             result = result_store.get(data_version)
             in_memory_result_store.set(data_version, result)
 
-- 
2.43.0


From c5145f440df899fa8c0ecbe9e3036f034781d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 37/49] fix: deleting from the in-memory metadata store keeps
 runs consistent

---
 hamilton/caching/stores/memory.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 019ec90..f27f784 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -52,12 +52,14 @@ class InMemoryMetadataStore(MetadataStore):
     @override
     def delete(self, cache_key: str) -> None:
         """Delete the ``data_version`` for ``cache_key``."""
-        del self._data_versions[cache_key]
+        self._data_versions.pop(cache_key, None)
 
     @override
     def delete_all(self) -> None:
         """Delete all stored metadata."""
         self._data_versions.clear()
+        self._cache_keys_by_run.clear()
+        self._run_ids.clear()
 
     def persist_to(self, metadata_store: Optional[MetadataStore] = None) -> None:
         """Persist in-memory metadata using another MetadataStore implementation.
@@ -94,7 +96,9 @@ class InMemoryMetadataStore(MetadataStore):
 
         for run_id, cache_keys in self._cache_keys_by_run.items():
             for cache_key in cache_keys:
-                data_version = self._data_versions[cache_key]
+                data_version = self.get(cache_key)
+                if data_version is None:  # it was deleted
+                    continue
                 metadata_store.set(
                     cache_key=cache_key,
                     data_version=data_version,
@@ -154,11 +158,14 @@ class InMemoryMetadataStore(MetadataStore):
 
         nodes_metadata = []
         for cache_key in self._cache_keys_by_run[run_id]:
+            data_version = self.get(cache_key)
+            if data_version is None:  # it was deleted
+                continue
             decoded_key = decode_key(cache_key)
             nodes_metadata.append(
                 dict(
                     cache_key=cache_key,
-                    data_version=self._data_versions[cache_key],
+                    data_version=data_version,
                     node_name=decoded_key["node_name"],
                     code_version=decoded_key["code_version"],
                     dependencies_data_versions=decoded_key["dependencies_data_versions"],
@@ -191,7 +198,7 @@ class InMemoryResultStore(ResultStore):
 
     @override
     def delete(self, data_version: str) -> None:
-        del self._results[data_version]
+        self._results.pop(data_version, None)
 
     @override
     def delete_all(self) -> None:
-- 
2.43.0


From 60f581bb49498548a1a81177c59e1a4e23c0355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 38/49] fix: only the needed nodes of a parallel region are
 executed when a node in it is overridden

---
 hamilton/execution/grouping.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index 85dc6e0..ed7fb78 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -212,6 +212,12 @@ class GroupByRepeatableBlocks(GroupingStrategy):
         node_names = {node_.name for node_ in nodes}
         for collector in collectors:
             expander, nodes_in_block = self.nodes_after_last_expand_block(collector)
+            # Nodes that are not needed (E.G. as they are only upstream of an override) do not run
+            if nodes_in_block:
+                nodes_in_block = [node_ for node_ in nodes_in_block if node_.name in node_names]
+                if not nodes_in_block and expander.name in node_names:
+                    # nothing to repeat, so these are just individual nodes
+                    continue
             # TODO -- add error message for conflicting groups...
             # if expander in visited:
             #     raise ValueError(f"Multiple collect nodes cannot trace "
-- 
2.43.0


From c58b1321468a1c572f2e569992680a0a7096c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 39/49] fix: tasks of a parallel region are realised only by
 the task that spawns them

---
 hamilton/execution/state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index 2da4fc9..3e9476b 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -163,11 +163,12 @@ class ExecutionState:
         :param tasks:
         :return:
         """
+        task_names = {task.base_id for task in tasks}
         for task in tasks:
             # Note that this will break with nested tasks...
             # We want to add every task that is initially spawned and "static"
-            # We want to add dynamic tasks later
-            if len(task.base_dependencies) == 0:
+            # We want to add dynamic tasks later, when the task that spawns them has run
+            if len(task.base_dependencies) == 0 and task.spawning_task_base_id not in task_names:
                 self.realize_task(task, None, None, None)
 
     def _initialize_base_task_pool(self, tasks: List[TaskSpec]):
-- 
2.43.0


From 831bbd3b4aec6115b4345015708e70b7d2086a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 40/49] fix: the latest commit of a branch is remembered per
 branch and independent of the wall clock

---
 hamilton/dataflows/__init__.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 9a1be31..028f4c1 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -111,9 +111,8 @@ def clear_storage():
         logger.info(f"Folder {DATAFLOW_FOLDER} does not exist.")
 
 
-# want TTL cache on this call to not get rate limited.
-last_time_called = None
-last_resolve_value = None
+# want TTL cache on this call to not get rate limited. Branch to (time of the call, commit).
+_resolved_branches: Dict[str, Tuple[float, str]] = {}
 
 
 @_track_function_call
@@ -122,10 +121,9 @@ def resolve_latest_branch_commit(branch: str = "main") -> str:
 
     :return: commit for what "main" is.
     """
-    global last_time_called
-    global last_resolve_value
-    if last_time_called is not None and last_resolve_value is not None:
-        if (last_time_called + 60.0) > time.time():
+    if branch in _resolved_branches:
+        last_time_called, last_resolve_value = _resolved_branches[branch]
+        if (last_time_called + 60.0) > time.monotonic():
             logger.info("using cached resolve_latest")
             return last_resolve_value
     url = f"https://api.github.com/repos/DAGWorks-Inc/hamilton/git/refs/heads/{branch}"
@@ -136,8 +134,7 @@ def resolve_latest_branch_commit(branch: str = "main") -> str:
             f"Failed to resolve latest commit for branch {branch}:\n{status_code}\n{text}"
         )
     commit_sha = json.loads(text)["object"]["sha"]
-    last_time_called = time.time()
-    last_resolve_value = commit_sha
+    _resolved_branches[branch] = (time.monotonic(), commit_sha)
     return commit_sha
 
 
-- 
2.43.0


From c029c484f6a8df356b48b3cba0b84313d700b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 41/49] fix: an interrupted or failed download no longer leaves
 a dataflow half pulled

---
 hamilton/dataflows/__init__.py | 85 +++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 028f4c1..e25a7d9 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -15,6 +15,7 @@ import sys
 import time
 import urllib.error
 import urllib.request
+import uuid
 from types import ModuleType
 from typing import Callable, Dict, List, NamedTuple, Optional, Tuple, Type, Union
 
@@ -166,6 +167,21 @@ def latest_commit(dataflow: str, user: str = None) -> str:
     return commit_sha
 
 
+# the files that make up a dataflow
+_DATAFLOW_FILES = [
+    "__init__.py",
+    "requirements.txt",
+    "README.md",
+    "valid_configs.jsonl",
+    "tags.json",
+]
+
+
+def _exists_locally(local_file_path: str) -> bool:
+    """Whether all the files of the dataflow are in the given directory."""
+    return all(os.path.exists(os.path.join(local_file_path, f)) for f in _DATAFLOW_FILES)
+
+
 @_track_function_call
 def pull_module(dataflow: str, user: str = None, version: str = "latest", overwrite: bool = False):
     """Pulls a dataflow module.
@@ -195,38 +211,44 @@ def pull_module(dataflow: str, user: str = None, version: str = "latest", overwr
         logger.info(f"pulling official dataflow {dataflow} with version {version}")
         local_file_path = OFFICIAL_PATH.format(commit_ish=version, dataflow=dataflow)
 
-    h_files = [
-        "__init__.py",
-        "requirements.txt",
-        "README.md",
-        "valid_configs.jsonl",
-        "tags.json",
-    ]
-
-    if os.path.exists(local_file_path) and not overwrite:
+    if _exists_locally(local_file_path) and not overwrite:
         raise ValueError(
             f"Dataflow {user}/{dataflow} with version {version} already exists locally. Not downloading."
         )
-    os.makedirs(local_file_path, exist_ok=True)
-    for h_file in h_files:
-        if user:
-            url = BASE_URL.format(commit_ish=version) + f"/user/{user}/{dataflow}/{h_file}"
-        else:
-            url = BASE_URL.format(commit_ish=version) + f"/dagworks/{dataflow}/{h_file}"
-        # response = requests.get(url)
-        status_code, text = _get_request(url)
-        if status_code == 404:
-            raise ValueError(f"Dataflow {user}/{dataflow}/{h_file} not found at {url}.")
-        elif status_code != 200:
-            raise ValueError(
-                f"Dataflow {user}/{dataflow} returned status code {status_code}:\n{text}"
-            )
-        file_contents = text
-        if os.path.exists(os.path.join(local_file_path, h_file)):
-            logger.info(f"Warning: overwriting {h_file} in {local_file_path}")
-        with open(os.path.join(local_file_path, h_file), "w") as f:
-            f.write(file_contents)
-            logger.info(f"wrote {h_file} to {local_file_path}")
+    # Everything is downloaded to a directory of its own first, so that the dataflow is never there in part.
+    download_path = os.path.join(DATAFLOW_FOLDER, f".pull_{uuid.uuid4()}")
+    os.makedirs(download_path)
+    try:
+        for h_file in _DATAFLOW_FILES:
+            if user:
+                url = BASE_URL.format(commit_ish=version) + f"/user/{user}/{dataflow}/{h_file}"
+            else:
+                url = BASE_URL.format(commit_ish=version) + f"/dagworks/{dataflow}/{h_file}"
+            # response = requests.get(url)
+            status_code, text = _get_request(url)
+            if status_code == 404:
+                raise ValueError(f"Dataflow {user}/{dataflow}/{h_file} not found at {url}.")
+            elif status_code != 200:
+                raise ValueError(
+                    f"Dataflow {user}/{dataflow} returned status code {status_code}:\n{text}"
+                )
+            with open(os.path.join(download_path, h_file), "w") as f:
+                f.write(text)
+        os.makedirs(os.path.dirname(local_file_path), exist_ok=True)
+        try:
+            os.rename(download_path, local_file_path)
+        except OSError:
+            if not os.path.isdir(local_file_path):
+                raise
+            for h_file in _DATAFLOW_FILES:
+                if os.path.exists(os.path.join(local_file_path, h_file)):
+                    logger.info(f"Warning: overwriting {h_file} in {local_file_path}")
+                os.replace(
+                    os.path.join(download_path, h_file), os.path.join(local_file_path, h_file)
+                )
+        logger.info(f"wrote {_DATAFLOW_FILES} to {local_file_path}")
+    finally:
+        shutil.rmtree(download_path, ignore_errors=True)
 
 
 @_track_function_call
@@ -270,8 +292,9 @@ def import_module(
         local_file_path = (
             OFFICIAL_PATH.format(commit_ish=version, dataflow=dataflow) + "/__init__.py"
         )
-    if not os.path.exists(local_file_path) or overwrite:
-        pull_module(dataflow, user, version=version, overwrite=overwrite)
+    if not _exists_locally(os.path.dirname(local_file_path)) or overwrite:
+        # overwrite: somebody else may be pulling it at the same time
+        pull_module(dataflow, user, version=version, overwrite=True)
     else:
         logger.info(f"Found {user}/{dataflow} with version {version} locally. Not downloading.")
 
-- 
2.43.0


From 3bc246d5324286dbe923f43fb13a7e4ca309a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 42/49] fix: importing a dataflow when a module of that name
 without __version__ is loaded

---
 hamilton/dataflows/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index e25a7d9..61ae943 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -300,7 +300,8 @@ def import_module(
 
     if dataflow in sys.modules:
         logger.info(
-            f"Warning: overwriting existing {dataflow} module with version {sys.modules[dataflow].__version__}"
+            f"Warning: overwriting existing {dataflow} module with version "
+            f"{getattr(sys.modules[dataflow], '__version__', 'unknown')}"
         )
     spec = importlib.util.spec_from_file_location(dataflow, local_file_path)
     module = importlib.util.module_from_spec(spec)
-- 
2.43.0


From 07d7eb7d3f54a6379d52c0b454cedddab59bbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 43/49] fix: version specifiers in dataflow requirements are
 understood

---
 hamilton/dataflows/__init__.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 61ae943..810ead1 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -10,6 +10,7 @@ import importlib
 import json
 import logging
 import os
+import re
 import shutil
 import sys
 import time
@@ -515,20 +516,10 @@ def are_py_dependencies_satisfied(dataflow, user=None, version="latest"):
         lines = req_file.readlines()
 
         for line in lines:
-            line = line.strip()
-            equals = line.find("=")
-            less_than = line.find("<")
-            greater_than = line.find(">")
-            version_marker = min(equals, less_than, greater_than)
-            if version_marker > 0:
-                package_name, required_version = (
-                    line[:version_marker],
-                    line[version_marker + 1 :],
-                )
-            else:
-                package_name = line
-                required_version = None
-            required_version  # noqa here for now...
+            line = line.split("#")[0].strip()
+            if not line or line.startswith("-"):  # nothing or an option for pip
+                continue
+            package_name = re.split(r"[\s<>=!~;@(\[]", line, maxsplit=1)[0]
             try:
                 installed_version = pkg_version(package_name)
                 installed_version  # noqa here for now..
-- 
2.43.0


From aeaa929fd47835e4a7f6ce1aaf3451d4ae271f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 44/49] fix: list and find work with only official dataflows
 downloaded

---
 hamilton/dataflows/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 810ead1..1bfa7c7 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -563,6 +563,8 @@ def list(version: str = "latest", user: str = None) -> list:
         ):
             continue
         commit_path = os.path.join(DATAFLOW_FOLDER, ci, "contrib", "hamilton", "contrib", "user")
+        if not os.path.exists(commit_path):  # there are only official dataflows
+            continue
         for usr in os.listdir(commit_path):
             if (
                 (user and usr != user)
@@ -606,6 +608,8 @@ def find(query: str, version: str = None, user: str = None):
         ):
             continue
         commit_path = os.path.join(DATAFLOW_FOLDER, ci, "contrib", "hamilton", "contrib", "user")
+        if not os.path.exists(commit_path):  # there are only official dataflows
+            continue
         for usr in os.listdir(commit_path):
             if (
                 (user and usr != user)
-- 
2.43.0


From 78e8cea49c2c7a35fe5c4b6a0a1c65f611ad3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:35 +0000
Subject: [PATCH 45/49] fix: materialize reports the end of an execution only
 if it reported its start

---
 hamilton/driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index cfb5502..1f250df 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1645,6 +1645,7 @@ class Driver:
         # This is so the finally logging statement does not accidentally die
         materializer_vars = []
         function_graph = self.graph
+        execution_started = False
         try:
             materializer_factories, extractor_factories = self._process_materializers(materializers)
             if len(materializer_factories) == len(final_vars) == 0:
@@ -1677,6 +1678,7 @@ class Driver:
                     inputs=inputs,
                     overrides=overrides,
                 )
+            execution_started = True
 
             nodes, user_nodes = function_graph.get_upstream_nodes(
                 final_vars + materializer_vars, inputs, overrides
@@ -1701,7 +1703,8 @@ class Driver:
             error_execution = e
             raise e
         finally:
-            if self.adapter.does_hook("post_graph_execute", is_async=False):
+            # without it having started, the hooks have not been told about this run
+            if execution_started and self.adapter.does_hook("post_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "post_graph_execute",
                     run_id=run_id,
-- 
2.43.0


From 2557ef28cbc136bb29dfeceabbe6987f354c123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:35 +0000
Subject: [PATCH 46/49] fix: MLFlowTracker records failed runs as failed and
 never breaks an execution

---
 hamilton/plugins/h_mlflow.py | 56 +++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 2d77815..b7ec330 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -1,5 +1,7 @@
 import logging
+import os
 import pickle
+import tempfile
 import warnings
 from typing import Any, Dict, List, Optional, Type, Union
 
@@ -84,6 +86,9 @@ class MLFlowTracker(
         :param log_system_metrics: Log system metrics to display (requires additonal dependencies)
         """
         self.client = mlflow.client.MlflowClient(tracking_uri, registry_uri)
+        if tracking_uri is not None:
+            # `mlflow.start_run()` has to find the runs created by the client
+            mlflow.set_tracking_uri(tracking_uri)
 
         # experiment setup
         experiment_tags = experiment_tags if experiment_tags else {}
@@ -164,7 +169,7 @@ class MLFlowTracker(
 
         # log config and inputs as `param` which creates columns in the UI to filter runs
         # `log_param()` accepts `value: Any` and will stringify complex objects
-        for value_sets in [self.config, inputs]:
+        for value_sets in [self.config, inputs or {}]:
             for node_name, value in value_sets.items():
                 self.client.log_param(self.run_id, key=node_name, value=value)
 
@@ -179,9 +184,14 @@ class MLFlowTracker(
         node_tags: dict,
         node_kwargs: dict,
         result: Any,
+        success: bool = True,
         **kwargs,
     ):
         """Log materializers and final vars as artifacts"""
+        # there is no result to log
+        if not success:
+            return
+
         # log DataSavers as artifacts
         # TODO refactor if/else as `handle_materializers()`
         if node_tags.get("hamilton.data_saver") is True:
@@ -274,23 +284,16 @@ class MLFlowTracker(
             self.client.log_metric(self.run_id, key=node_name, value=float(result))
 
         # log str as text in .txt format
-        elif isinstance(node_return_type, str):
-            file_path = f"{node_name}.txt"
-            with open(file_path, "w") as f:
-                f.write(result)
-            self.client.log_text(self.run_id, result, file_path)
+        elif node_return_type is str:
+            self.client.log_text(self.run_id, result, f"{node_name}.txt")
 
         # log_dict (JSON) dictionary types; pickle if not json-serializable
-        elif isinstance(node_return_type, dict):
+        elif isinstance(result, dict):
             try:
-                file_path = f"{node_name}.json"
-                self.client.log_dict(self.run_id, result, file_path)
+                self.client.log_dict(self.run_id, result, f"{node_name}.json")
             # not json-serializable
-            except TypeError:
-                file_path = f"{node_name}.pickle"
-                with open(file_path, "wb") as f:
-                    pickle.dump(result, file=f)
-                self.client.log_dict(self.run_id, result, file_path)
+            except (TypeError, ValueError):
+                self._log_pickle(node_name, result)
 
         # this puts less burden on users by not having to define materializers
         # for viz, but less control over rendering format
@@ -300,19 +303,26 @@ class MLFlowTracker(
 
         # default to log_artifact in .pickle format
         else:
-            file_path = f"{node_name}.pickle"
-            with open(file_path, "wb") as f:
-                pickle.dump(result, f)
-            self.client.log_dict(self.run_id, result, file_path)
+            self._log_pickle(node_name, result)
+
+    def _log_pickle(self, node_name: str, result: Any):
+        """Log a result as an artifact in .pickle format"""
+        with tempfile.TemporaryDirectory() as directory:
+            file_path = os.path.join(directory, f"{node_name}.pickle")
+            try:
+                with open(file_path, "wb") as f:
+                    pickle.dump(result, f)
+            except Exception as e:
+                logger.warning(f"Result of node={node_name} can't be pickled, not logging it: {e}")
+                return
+            self.client.log_artifact(self.run_id, file_path)
 
     def run_after_graph_execution(self, success: bool, *args, **kwargs):
         """End the MLFlow run"""
         # `status` is an enum value of mlflow.entities.RunStatus
-        if success:
-            self.client.set_terminated(self.run_id, status="FINISHED")
-        else:
-            self.client.set_terminated(self.run_id, status="FAILED")
-        mlflow.end_run()
+        status = "FINISHED" if success else "FAILED"
+        self.client.set_terminated(self.run_id, status=status)
+        mlflow.end_run(status=status)
 
     def run_before_node_execution(self, *args, **kwargs):
         """Placeholder required to subclass NodeExecutionHook"""
-- 
2.43.0


From df35f2be97b75f77db04c57369ed9f5fdc021a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:35 +0000
Subject: [PATCH 47/49] fix: ExperimentTracker survives failing savers and
 records one execution at a time

---
 hamilton/plugins/h_experiments/hook.py | 51 +++++++++++++++++---------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index 006071b..69c6320 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -133,6 +133,9 @@ class ExperimentTracker(
     ):
         """Store execution metadata: graph hash, inputs, overrides"""
         self.graph_hash = graph.version
+        # the record is about this execution, not about those before it
+        self.inputs, self.overrides, self.materializers = [], [], []
+        inputs = inputs or {}
 
         for node in graph.nodes:
             if node.tags.get("module"):
@@ -157,30 +160,42 @@ class ExperimentTracker(
             os.chdir(self.run_directory)  # before materialization
 
     def run_after_node_execution(
-        self, *, node_name: str, node_tags: dict, node_kwargs: dict, result: Any, **kwargs
+        self,
+        *,
+        node_name: str,
+        node_tags: dict,
+        node_kwargs: dict,
+        result: Any,
+        success: bool = True,
+        **kwargs,
     ):
         """Move back to init directory after executing materializer.
         Then, save materialization metadata
         """
         if node_tags.get("hamilton.data_saver") is True:
-            if "path" in result:
-                path = result["path"]
-            elif "file_metadata" in result:
-                path = result["file_metadata"]["path"]
-            else:
-                logger.warning(
-                    f"Materialization result from node={node_name} has no recordable path: {result}. Materializer must have either "
-                    f"'path' or 'file_metadata' keys."
-                )
-            self.materializers.append(
-                NodeMaterializer(
-                    source_nodes=list(node_kwargs.keys()),
-                    path=str(Path(path).resolve()),
-                    sink=node_tags["hamilton.data_saver.sink"],
-                    data_saver=node_tags["hamilton.data_saver.classname"],
+            try:
+                if not success:
+                    return
+                if "path" in result:
+                    path = result["path"]
+                elif "file_metadata" in result:
+                    path = result["file_metadata"]["path"]
+                else:
+                    logger.warning(
+                        f"Materialization result from node={node_name} has no recordable path: {result}. Materializer must have either "
+                        f"'path' or 'file_metadata' keys."
+                    )
+                    return
+                self.materializers.append(
+                    NodeMaterializer(
+                        source_nodes=list(node_kwargs.keys()),
+                        path=str(Path(path).resolve()),
+                        sink=node_tags["hamilton.data_saver.sink"],
+                        data_saver=node_tags["hamilton.data_saver.classname"],
+                    )
                 )
-            )
-            os.chdir(self.init_directory)  # after materialization
+            finally:
+                os.chdir(self.init_directory)  # after materialization
 
     def run_after_graph_execution(self, *, success: bool, **kwargs):
         """Encode run metadata as JSON and store in cache"""
-- 
2.43.0


From ea3826ea098dbb388ec16ef97b3f478da65182af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:35 +0000
Subject: [PATCH 48/49] fix: interrupted functions and executions are not
 reported to hooks as successful

---
 hamilton/driver.py                    | 6 +++---
 hamilton/execution/executors.py       | 2 +-
 hamilton/execution/graph_functions.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 1f250df..2d1af49 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -630,7 +630,7 @@ class Driver:
                     "do_build_result", outputs=outputs
                 )
             # Otherwise just return a dict
-        except Exception as e:
+        except BaseException as e:
             run_successful = False
             logger.error(SLACK_ERROR_MESSAGE)
             error_execution = e
@@ -768,7 +768,7 @@ class Driver:
                 run_id,
             )
             success = True
-        except Exception as e:
+        except BaseException as e:
             error = e
             success = False
             raise e
@@ -1696,7 +1696,7 @@ class Driver:
             materialization_output = {key: raw_results[key] for key in materializer_vars}
             raw_results_output = {key: raw_results[key] for key in final_vars}
             outputs = materialization_output, raw_results_output
-        except Exception as e:
+        except BaseException as e:
             run_successful = False
             logger.error(SLACK_ERROR_MESSAGE)
             error_telemetry = telemetry.sanitize_error(*sys.exc_info())
diff --git a/hamilton/execution/executors.py b/hamilton/execution/executors.py
index 7bfb500..686ad8b 100644
--- a/hamilton/execution/executors.py
+++ b/hamilton/execution/executors.py
@@ -121,7 +121,7 @@ def base_execute_task(task: TaskImplementation) -> Dict[str, Any]:
             run_id=task.run_id,
             task_id=task.task_id,
         )
-    except Exception as e:
+    except BaseException as e:  # an interrupt (Ctrl-C, sys.exit()) is no success either
         logger.exception(task.task_id)
         error = e
         success = False
diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index f2f286d..fe19eac 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -308,7 +308,7 @@ def execute_lifecycle_for_node(
 
         return result
 
-    except Exception as e:
+    except BaseException as e:  # an interrupt (Ctrl-C, sys.exit()) is no success either
         success = False
         error = e
         step = "[pre-node-execute]" if pre_node_execute_errored else ""
-- 
2.43.0


From 4c40da9f24e9b157a2a06cb5cc51a11e60b47802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:36 +0000
Subject: [PATCH 49/49] fix: executors stayed initialized when another executor
 failed to start or stop

---
 hamilton/execution/executors.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hamilton/execution/executors.py b/hamilton/execution/executors.py
index 686ad8b..8ab5ff6 100644
--- a/hamilton/execution/executors.py
+++ b/hamilton/execution/executors.py
@@ -1,4 +1,5 @@
 import abc
+import contextlib
 import dataclasses
 import functools
 import logging
@@ -304,14 +305,26 @@ class ExecutionManager(abc.ABC):
         self.executors = executors
 
     def init(self):
-        """Initializes each of the executors."""
-        for executor in self.executors:
-            executor.init()
+        """Initializes each of the executors. If one of them fails to initialize, the ones before
+        it are torn down again."""
+        initialized = []
+        try:
+            for executor in self.executors:
+                executor.init()
+                initialized.append(executor)
+        except BaseException:
+            self._finalize_all(initialized)
+            raise
 
     def finalize(self):
-        """Finalizes each of the executors."""
-        for executor in self.executors:
-            executor.finalize()
+        """Finalizes each of the executors, even if the finalization of one of them fails."""
+        self._finalize_all(self.executors)
+
+    @staticmethod
+    def _finalize_all(executors: List[TaskExecutor]):
+        with contextlib.ExitStack() as stack:
+            for executor in reversed(executors):
+                stack.callback(executor.finalize)
 
     @abc.abstractmethod
     def get_executor_for_task(self, task: TaskImplementation) -> TaskExecutor:
-- 
2.43.0

