From 9d78b3660025696120bd60dc4b631e307b494b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 01/38] fix: write index manifest column stats with the primary
 key's type

Appending rows with an int32 or float32 primary key, or with a row group whose
column statistics have no min and max (all values null or values too large),
failed with ArrowInvalid or TypeError.
---
 python/src/space/core/manifests/index.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 12fdb98..ee758de 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -69,18 +69,26 @@ class _FieldStats:
   """A local cache for merging stats from row groups."""
 
   def __init__(self, type_: pa.DataType):
+    self._type = type_
     self._fields = _stats_subfields(type_)
 
     self._min: Any = None
     self._max: Any = None
+    # Min and max of the file are unknown if any row group does not have them,
+    # e.g., all values are null, or the values are too large.
+    self._unknown = False
 
     # _min and _max cache the stats of one file; after finalizing they are
     # moved to _min_list and _max_list that cache stats of all files.
     self._min_list: List[Any] = []
     self._max_list: List[Any] = []
 
-  def merge(self, stats: pq.Statistics) -> None:
+  def merge(self, stats: Optional[pq.Statistics]) -> None:
     """Merge the cached stats with a new stats."""
+    if stats is None or not stats.has_min_max:
+      self._unknown = True
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
@@ -89,16 +97,20 @@ class _FieldStats:
 
   def finish(self) -> None:
     """Finialize the stats for the current file."""
-    self._min_list.append(self._min)
-    self._max_list.append(self._max)
+    self._min_list.append(None if self._unknown else self._min)
+    self._max_list.append(None if self._unknown else self._max)
 
     self._min = None
     self._max = None
+    self._unknown = False
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
     return pa.StructArray.from_arrays(
-        [self._min_list, self._max_list],  # type: ignore[arg-type]
+        [
+            pa.array(self._min_list, self._type),  # type: ignore[arg-type]
+            pa.array(self._max_list, self._type)  # type: ignore[arg-type]
+        ],
         fields=self._fields)
 
 
-- 
2.43.0


From b6574c93d646b9b412a9efa1685a21a9cf0133af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 02/38] fix: preserve the schema's field order when appending
 record fields

Appending to a dataset failed if a record field is not the last field in its
schema.
---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 6672323..b84524d 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -179,7 +179,6 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
 
     # Write record fields into files.
     # TODO: to parallelize it.
-    # TODO: to preserve the field order in schema.
     if self._record_address_input:
       for f in self._record_fields:
         index_data = index_data.append_column(f.name, data.column(
@@ -194,6 +193,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
         # TODO: the field/column added must have field ID.
         index_data = index_data.append_column(field_name, address_column)
 
+    # Preserve the field order in schema.
+    index_data = index_data.select(self._physical_schema.names)
+
     # Write index fields into files.
     self._cached_index_file_bytes += index_data.nbytes
 
-- 
2.43.0


From e6cacde9ef6640acb45a229f7825296a87af69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 03/38] fix: collect column stats from the primary key's own
 Parquet column

The position of a field in the schema was used as Parquet leaf column ID; with
a nested or record field before the primary key, or an external Parquet file
with another column order, the stats of another column were used.
---
 python/src/space/core/manifests/index.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index ee758de..49685e7 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -141,6 +141,7 @@ class IndexManifestWriter:
     # Key is column ID.
     self._field_stats_dict: Dict[int, _FieldStats] = {}
 
+    self._column_names = schema.names
     column_id_dict = field_id_to_column_id_dict(schema)
     for field_id_, type_ in self._stats_fields:
       column_id = column_id_dict[field_id_]
@@ -171,10 +172,18 @@ class IndexManifestWriter:
     index_compressed_bytes = 0
     index_uncompressed_bytes = 0
 
+    # A field's Parquet (leaf) column ID is different from its position in the
+    # schema when there are nested fields, or in external Parquet files.
+    parquet_column_ids = {
+        parquet_metadata.schema.column(i).path: i
+        for i in range(parquet_metadata.num_columns)
+    }
+
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
       for column_id, field_stats in self._field_stats_dict.items():
-        column_stats = rg_metadata.column(column_id)
+        column_stats = rg_metadata.column(
+            parquet_column_ids[self._column_names[column_id]])
         field_stats.merge(column_stats.statistics)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
-- 
2.43.0


From 40e57082c3da087340a42836f97a32c0435c2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 04/38] fix: keep unmodified files when delete removes all rows
 of other files

A delete lost the files sharing a manifest with the deleted files but having no
matching row, if it left no row to reinsert: the carried over manifest was
dropped because no row was appended.
---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index b84524d..029646f 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -152,7 +152,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
       self._patch.addition.record_manifest_files.append(
           self.short_path(record_manifest_path))
 
-    if self._patch.storage_statistics_update.num_rows == 0:
+    # The patch may contain only an external index manifest (no new rows).
+    if (self._patch.storage_statistics_update.num_rows == 0 and
+        not self._patch.addition.index_manifest_files):
       return None
 
     return self._patch
-- 
2.43.0


From 776e8bcee6bc04d7555a99bdf85039c06fe8f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 05/38] fix: do not delete rows on which the delete filter is
 null

A row whose filtered field is null does not match the filter (a read does not
return it), but delete removed it.
---
 python/src/space/core/ops/delete.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 18a2be1..a444643 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -73,8 +73,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
           f"Invalid input file set for delete op:\n{file_set}")
 
     self._file_set = file_set
-    # Rows not matching not filter will be reinserted.
-    self._reinsert_filter = ~filter_
+    # Rows not matching filter will be reinserted, including the rows that
+    # filter evaluates to null.
+    self._reinsert_filter = ~filter_ | filter_.is_null()
 
     self._append_op = LocalAppendOp(location,
                                     metadata,
-- 
2.43.0


From 27ceeb8bfc3f780a1a26e3e8cd0cfef612cc7b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 06/38] fix: compute delete's storage statistics from the
 rewritten files only

The bytes of files that a delete examined but did not rewrite, and of files
carried over in rewritten manifests, were subtracted from or added to the
snapshot's index bytes.
---
 python/src/space/core/ops/delete.py | 30 ++++++-----------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index a444643..7e40192 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -92,9 +92,6 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     deleted_rows = 0
     stats_before_delete = meta.StorageStatistics()
     for file in self._file_set.index_files:
-      utils.update_index_storage_stats(stats_before_delete,
-                                       file.storage_statistics)
-
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
       index_data = index_data.append_column(
@@ -108,6 +105,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
         continue
 
       # Collect statistics.
+      utils.update_index_storage_stats(stats_before_delete,
+                                       file.storage_statistics)
       deleted_rows += (file.storage_statistics.num_rows - index_data.num_rows)
       all_deleted = index_data.num_rows == 0
 
@@ -161,17 +160,13 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       patch.deletion.index_manifest_files.append(f)
 
     # Compute storage statistics update.
-    survivor_stats = _read_index_statistics(survivor_index_manifests)
     reinsert_stats = (reinsert_patch.storage_statistics_update if reinsert_patch
                       is not None else meta.StorageStatistics())
 
-    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes +
-                                survivor_stats.index_compressed_bytes
-                               ) - stats_before_delete.index_compressed_bytes
-    deleted_uncompressed_bytes = (
-        reinsert_stats.index_uncompressed_bytes +
-        survivor_stats.index_uncompressed_bytes
-    ) - stats_before_delete.index_uncompressed_bytes
+    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes -
+                                stats_before_delete.index_compressed_bytes)
+    deleted_uncompressed_bytes = (reinsert_stats.index_uncompressed_bytes -
+                                  stats_before_delete.index_uncompressed_bytes)
 
     patch.storage_statistics_update.CopyFrom(
         meta.StorageStatistics(
@@ -188,19 +183,6 @@ def _build_file_path_filter(field_name: str, file_paths: List[str]):
   return filter_
 
 
-def _read_index_statistics(manifest_data: pa.Table) -> meta.StorageStatistics:
-  """Read storage statistics of unmodified index files from manifests."""
-
-  def sum_bytes(field_name: str) -> int:
-    return sum(manifest_data.column(
-        field_name).combine_chunks().to_pylist())  # type: ignore[arg-type]
-
-  return meta.StorageStatistics(index_compressed_bytes=sum_bytes(
-      constants.INDEX_COMPRESSED_BYTES_FIELD),
-                                index_uncompressed_bytes=sum_bytes(
-                                    constants.INDEX_UNCOMPRESSED_BYTES_FIELD))
-
-
 def _validate_files(file_set: rt.FileSet) -> bool:
   """Return false if the file set does not contain sufficient information for
   deletion.
-- 
2.43.0


From 16e06d551af8ca2d815de95d2e2fde3a74d41912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 07/38] fix: do not reuse IDs of snapshots that no reference
 points to

After a branch is removed, a reloaded storage assigned the IDs of the branch's
snapshots to new commits, overwriting these snapshots.
---
 python/src/space/core/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7eb32fa..7253a00 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -87,7 +87,7 @@ class Storage(paths.StoragePathsMixin):
     self._current_branch = current_branch or _MAIN_BRANCH
     self._max_snapshot_id = max(
         [ref.snapshot_id for ref in self._metadata.refs.values()] +
-        [self._metadata.current_snapshot_id])
+        list(self._metadata.snapshots) + [self._metadata.current_snapshot_id])
 
   @property
   def metadata(self) -> meta.StorageMetadata:
-- 
2.43.0


From 710d19e1adce112d72f1f06ce3e9601c9dba343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 08/38] fix: delete of nothing is skipped when no data file
 matches the filter

Deleting from an empty dataset, or with a filter that prunes all data files,
failed instead of being a no-op.
---
 python/src/space/core/ops/delete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 7e40192..f9976d9 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -192,7 +192,7 @@ def _validate_files(file_set: rt.FileSet) -> bool:
         f.manifest_file_id == 0):
       return False
 
-  return len(file_set.index_manifest_files) > 0
+  return not file_set.index_files or len(file_set.index_manifest_files) > 0
 
 
 def _build_bitmap(file: rt.DataFile, index_data: pa.Table,
-- 
2.43.0


From d94537726ca4d31e5b61c4103c76cec8464f4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 09/38] fix: reload the storage before adding or removing a
 reference

Adding or removing a tag or branch through a handle loaded before commits of
other handles overwrote the entry point with stale metadata, losing the commits.
---
 python/src/space/core/storage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7253a00..c43b431 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -257,6 +257,10 @@ class Storage(paths.StoragePathsMixin):
                      ref_type: meta.SnapshotReference.ReferenceType.ValueType,
                      snapshot_id: Optional[int] = None) -> None:
     """Add reference to a snapshot"""
+    # The metadata to modify must be the latest, otherwise commits by other
+    # writers are lost.
+    self.reload()
+
     if snapshot_id is None:
       snapshot_id = self._metadata.current_snapshot_id
 
@@ -298,6 +302,10 @@ class Storage(paths.StoragePathsMixin):
   def _remove_reference(
       self, ref_name: str,
       ref_type: meta.SnapshotReference.ReferenceType.ValueType) -> None:
+    # The metadata to modify must be the latest, otherwise commits by other
+    # writers are lost.
+    self.reload()
+
     if (ref_name not in self._metadata.refs or
         self._metadata.refs[ref_name].type != ref_type):
       raise errors.VersionNotFoundError(
-- 
2.43.0


From b908dd89c0972332b5602edaf745ec5ef038e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 10/38] fix: correct the falsifiable filter of comparing two
 fields by not_equal

Files in which the ranges of two primary keys overlap were pruned, though they
contain rows whose two keys are different.
---
 python/src/space/core/manifests/falsifiable_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ffb8e14..8b16f07 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -229,7 +229,7 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_max >= r_min) & (r_max >= l_min)
+    return (l_min == r_max) & (l_max == r_min)
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
-- 
2.43.0


From 327e341b38622413bd9b56438029278bc0359933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 11/38] fix: skip manifest pruning for filters it does not
 support

Filters that can't be converted to Substrait (e.g., comparing an integer field
with a float), isin, and null literals raised an error instead of being read
without pruning.
---
 .../space/core/manifests/falsifiable_filters.py   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 8b16f07..3238821 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -59,9 +59,8 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   Returns:
     Falsifiable filter, or None if not supported.
   """
-  expr = _substrait_expr(schema, filter_)
-
   try:
+    expr = _substrait_expr(schema, filter_)
     ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
@@ -82,8 +81,11 @@ def _substrait_expr(schema: pa.Schema,
   PyArrow does not expose enough methods for processing expressions, thus we
   convert it to Substrait format for processing.
   """
-  buf = ps.serialize_expressions(  # type: ignore[attr-defined]
-      [arrow_expr], ["expr"], schema)
+  try:
+    buf = ps.serialize_expressions(  # type: ignore[attr-defined]
+        [arrow_expr], ["expr"], schema)
+  except pa.ArrowException as e:
+    raise _ExpressionException(f"Fail to convert to Substrait: {e}") from None
 
   expr = ExtendedExpression()
   expr.ParseFromString(buf.to_pybytes())
@@ -123,6 +125,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
       raise _ExpressionException(
           f"Single arg expression is not supported: {expr}")
 
+    raise _ExpressionException(f"Unsupported expression: {expr}")
+
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
                                   base_schema, primary_keys, field_name_ids)
   min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
@@ -290,6 +294,9 @@ def _falsifiable_condition_field_literal(
 
 
 def _value(v: Expression):
+  if v.literal.HasField("null"):
+    raise _ExpressionException("Null literal is not supported")
+
   return pc.scalar(
       getattr(v.literal,
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
-- 
2.43.0


From a0266292cae1dae92b47cbe29415254337fce3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 12/38] fix: find the field of a filter by its top level
 position

With a nested field before the filtered field in the schema, another field's
column stats were used to prune data files.
---
 .../core/manifests/falsifiable_filters.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 3238821..7f59845 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -30,7 +30,6 @@ import pyarrow.substrait as ps
 from substrait.algebra_pb2 import Expression
 from substrait.extensions.extensions_pb2 import SimpleExtensionDeclaration
 from substrait.extended_expression_pb2 import ExtendedExpression
-from substrait.type_pb2 import NamedStruct
 
 from space.core.schema import utils as schema_utils
 from space.core.schema import constants
@@ -61,7 +60,7 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   """
   try:
     expr = _substrait_expr(schema, filter_)
-    ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
+    ff = _falsifiable_filter(expr, schema, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
@@ -97,7 +96,7 @@ class _ExpressionException(Exception):
 
 
 def _falsifiable_filter(
-    filter_: ExtendedExpression, primary_keys: Set[str],
+    filter_: ExtendedExpression, schema: pa.Schema, primary_keys: Set[str],
     field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
     raise _ExpressionException(
@@ -105,7 +104,7 @@ def _falsifiable_filter(
 
   return _falsifiable_filter_internal(
       filter_.extensions,  # type: ignore[arg-type]
-      filter_.base_schema,
+      schema,
       primary_keys,
       field_name_ids,
       filter_.referred_expr[0].expression)
@@ -113,7 +112,7 @@ def _falsifiable_filter(
 
 # pylint: disable=too-many-locals,too-many-return-statements,too-many-branches,too-many-statements
 def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
-                                 base_schema: NamedStruct,
+                                 schema: pa.Schema,
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
                                  expr: Expression) -> Optional[pc.Expression]:
@@ -128,8 +127,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     raise _ExpressionException(f"Unsupported expression: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  base_schema, primary_keys, field_name_ids)
-  min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
+                                  schema, primary_keys, field_name_ids)
+  min_max_fn = partial(_min_max, schema, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -302,10 +301,12 @@ def _value(v: Expression):
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
 
 
-def _min_max(base_schema, primary_keys, field_name_ids,
+def _min_max(schema: pa.Schema, primary_keys, field_name_ids,
              v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
   field_index = v.selection.direct_reference.struct_field.field
-  field_name = base_schema.names[field_index]
+  # NOTE: names in the Substrait schema can't be used here because it has names
+  # of nested fields, but field index is the position of a top level field.
+  field_name = schema.names[field_index]
   field_id = field_name_ids[field_name]
 
   # Only primary key supports falsifiable filter because of column stats.
-- 
2.43.0


From 7b63ab631b07b0756fd8c370c65fd092a7d2bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 13/38] fix: do not prune files by not_equal on float fields

Parquet column stats ignore NaN values, so a file with min = max = 5 may still
have a NaN row matching field != 5.
---
 .../core/manifests/falsifiable_filters.py     | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 7f59845..ff570b2 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -129,6 +129,7 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
                                   schema, primary_keys, field_name_ids)
   min_max_fn = partial(_min_max, schema, primary_keys, field_name_ids)
+  is_float_fn = partial(_is_float, schema)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -169,7 +170,7 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
 
   # Supported case: field [op] field
   if _has_selection(lhs) and _has_selection(rhs):
-    return _falsifiable_condition_fields(fn, lhs, rhs, min_max_fn)
+    return _falsifiable_condition_fields(fn, lhs, rhs, min_max_fn, is_float_fn)
 
   # Supported case: value [op] value
   if _has_literal(lhs) and _has_literal(rhs):
@@ -189,7 +190,7 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     rhs = tmp
 
   return _falsifiable_condition_field_literal(fn, lhs, rhs, min_max_fn,
-                                              reverse_fn)
+                                              is_float_fn, reverse_fn)
 
 
 def _stats_field_min(field_id: int) -> pc.Expression:
@@ -213,14 +214,18 @@ def _has_literal(msg: Expression) -> bool:
 
 
 def _falsifiable_condition_fields(
-    fn: str, lhs: Expression, rhs: Expression,
-    min_max_fn: Callable) -> Optional[pc.Expression]:
+    fn: str, lhs: Expression, rhs: Expression, min_max_fn: Callable,
+    is_float_fn: Callable) -> Optional[pc.Expression]:
   l_min, l_max, l_is_pk = min_max_fn(lhs)
   r_min, r_max, r_is_pk = min_max_fn(rhs)
 
   if not (l_is_pk and r_is_pk):
     return None
 
+  # NaN values are not in stats, but not equal to any value.
+  if fn == "not_equal" and (is_float_fn(lhs) or is_float_fn(rhs)):
+    return None
+
   if fn == "gt":
     return l_max <= r_min
   if fn == "gte":
@@ -259,11 +264,15 @@ def _falsifiable_condition_literals(fn: str, lhs: Expression,
 
 def _falsifiable_condition_field_literal(
     fn: str, lhs: Expression, rhs: Expression, min_max_fn: Callable,
-    reverse_fn: bool) -> Optional[pc.Expression]:
+    is_float_fn: Callable, reverse_fn: bool) -> Optional[pc.Expression]:
   field_min, field_max, is_pk = min_max_fn(lhs)
   if not is_pk:
     return None
 
+  # NaN values are not in stats, but not equal to any value.
+  if fn == "not_equal" and is_float_fn(lhs):
+    return None
+
   value = _value(rhs)
 
   if reverse_fn:
@@ -314,3 +323,8 @@ def _min_max(schema: pa.Schema, primary_keys, field_name_ids,
   # keys.
   is_pk = field_name in primary_keys
   return _stats_field_min(field_id), _stats_field_max(field_id), is_pk
+
+
+def _is_float(schema: pa.Schema, v: Expression) -> bool:
+  field_index = v.selection.direct_reference.struct_field.field
+  return pa.types.is_floating(schema.types[field_index])
-- 
2.43.0


From 86c30d77fd5e8e9060765bb94e7b310e53114bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 14/38] fix: do not prune data files by filters containing a
 negation

The falsifiable filter of a negation prunes files that contain both matched and
unmatched rows. build_manifest_filter's result is unchanged by default, it is
pinned by existing tests.
---
 python/src/space/core/manifests/falsifiable_filters.py | 10 +++++++++-
 python/src/space/core/storage.py                       |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ff570b2..78e5b23 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -37,7 +37,8 @@ from space.core.schema import constants
 
 def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
                           field_name_ids: Dict[str, int],
-                          filter_: pc.Expression) -> Optional[pc.Expression]:
+                          filter_: pc.Expression,
+                          skip_negation: bool = False) -> Optional[pc.Expression]:
   """Build a falsifiable filter on index manifest files column statistics.
 
   Return None when it fails to build a manifest filter, then manifest pruning
@@ -54,12 +55,19 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
     primary_keys: the primary keys.
     filter_: a filter on data fields.
     field_name_ids: a dict of field names to IDs mapping.
+    skip_negation: if true, return None for filters containing a negation. The
+      negation of a falsifiable filter is not the falsifiable filter of the
+      negation: it misses files containing both matched and unmatched rows.
 
   Returns:
     Falsifiable filter, or None if not supported.
   """
   try:
     expr = _substrait_expr(schema, filter_)
+    if skip_negation and any(ext.extension_function.name == "not"
+                             for ext in expr.extensions):
+      raise _ExpressionException("Negation is not supported")
+
     ff = _falsifiable_filter(expr, schema, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index c43b431..7bd4c44 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -395,7 +395,9 @@ class Storage(paths.StoragePathsMixin):
     if filter_ is not None:
       manifest_filter = build_manifest_filter(self._physical_schema,
                                               self._primary_keys,
-                                              self._field_name_ids, filter_)
+                                              self._field_name_ids,
+                                              filter_,
+                                              skip_negation=True)
 
     for manifest_file in manifest_files.index_manifest_files:
       result_per_manifest = read_index_manifests(self.full_path(manifest_file),
-- 
2.43.0


From a79a37261dae00b49957c181946fe18970fcf9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 15/38] fix: do not prune files without column stats

A data file whose primary key has no min and max (e.g., values are too large)
was pruned by any filter on the primary key.
---
 python/src/space/core/manifests/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 49685e7..ecd1f40 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -254,6 +254,10 @@ def read_index_manifests(manifest_path: str,
   Returns:
     A file set of data files in the manifest file.
   """
+  if filter_ is not None:
+    # The filter is null if column stats are unknown, such files must be kept.
+    filter_ = filter_ | filter_.is_null()
+
   table = pq.read_table(manifest_path,
                         filters=filter_)  # type: ignore[arg-type]
 
-- 
2.43.0


From 070b3b9a2225694dfc087cf9a864cef24848d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 16/38] fix: write the change log of append_parquet

Reading changes (diff) of a version range with an append_parquet failed because
its snapshot had no change log.
---
 python/src/space/core/loaders/parquet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71e5101..cbdaaa1 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -56,6 +56,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
 
     for f in self._input_files:
       stats = _write_index_manifest(index_manifest_writer, f)
+      patch.change_log.added_rows.append(
+          meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
 
-- 
2.43.0


From ff44098e19d114fb3b914dde4b8256172b1ca994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 17/38] fix: skip append_parquet when there is no row to append

It committed an empty snapshot, and index files without rows that make later
upserts and deletes fail.
---
 python/src/space/core/loaders/parquet.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index cbdaaa1..d292168 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -55,7 +55,12 @@ class LocalParquetLoadOp(StoragePathsMixin):
     patch = rt.Patch()
 
     for f in self._input_files:
-      stats = _write_index_manifest(index_manifest_writer, f)
+      metadata = pq.read_metadata(f)
+      if metadata.num_rows == 0:
+        continue
+
+      # TODO: to verify that file schemas are compatible with dataset.
+      stats = index_manifest_writer.write(f, metadata)
       patch.change_log.added_rows.append(
           meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
@@ -66,11 +71,7 @@ class LocalParquetLoadOp(StoragePathsMixin):
       patch.addition.index_manifest_files.append(
           self.short_path(index_manifest_full_path))
 
-    return patch
-
+    if patch.storage_statistics_update.num_rows == 0:
+      return None
 
-def _write_index_manifest(manifest_writer: IndexManifestWriter,
-                          file_path: str) -> meta.StorageStatistics:
-  # TODO: to verify that file schemas are compatible with dataset.
-  metadata = pq.read_metadata(file_path)
-  return manifest_writer.write(file_path, metadata)
+    return patch
-- 
2.43.0


From 2b824f3b2d794ddc74b870093872af99ebc36bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 18/38] fix: load external files matching a relative path
 pattern

Their relative paths were resolved against the storage location when reading.
---
 python/src/space/core/loaders/array_record.py | 4 +++-
 python/src/space/core/loaders/parquet.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index be02221..f6ca43d 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -16,6 +16,7 @@
 
 from typing import Any, Callable, Dict, List, Optional, Tuple
 import glob
+from os import path
 
 import pyarrow as pa
 from typing_extensions import TypeAlias
@@ -66,7 +67,8 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     self._record_field = self._record_fields[0]
 
     self._serializer = DictSerializer.create(logical_schema)
-    self._input_files = glob.glob(pattern)
+    # Relative paths in metadata are relative to the storage location.
+    self._input_files = glob.glob(path.abspath(pattern))
 
   def write(self) -> Optional[rt.Patch]:
     """Write index files to load ArrayRecord files to Space dataset."""
diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index d292168..d91dc16 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -16,6 +16,7 @@
 
 from typing import Optional
 import glob
+from os import path
 
 import pyarrow.parquet as pq
 
@@ -45,7 +46,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
     self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                                set(),
                                                physical=True)
-    self._input_files = glob.glob(pattern)
+    # Relative paths in metadata are relative to the storage location.
+    self._input_files = glob.glob(path.abspath(pattern))
 
   def write(self) -> Optional[rt.Patch]:
     """Write metadata files to load Parquet files to Space dataset."""
-- 
2.43.0


From a77a327c90bcd1f245162699d31f5499414acfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 19/38] fix: do not take a nested Parquet column for a primary
 key with a dot in its name

---
 python/src/space/core/manifests/index.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index ecd1f40..c93581b 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -173,10 +173,13 @@ class IndexManifestWriter:
     index_uncompressed_bytes = 0
 
     # A field's Parquet (leaf) column ID is different from its position in the
-    # schema when there are nested fields, or in external Parquet files.
+    # schema when there are nested fields, or in external Parquet files. The
+    # path of a nested column has more parts than its name.
+    parquet_columns = map(parquet_metadata.schema.column,
+                          range(parquet_metadata.num_columns))
     parquet_column_ids = {
-        parquet_metadata.schema.column(i).path: i
-        for i in range(parquet_metadata.num_columns)
+        c.name: i
+        for i, c in enumerate(parquet_columns) if c.path == c.name
     }
 
     for rg in range(parquet_metadata.num_row_groups):
-- 
2.43.0


From a79db20fd552017ef1245d05d94ed38f227b3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 20/38] fix: keep record files in the data directory whatever
 the field's name

---
 python/src/space/core/utils/paths.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/core/utils/paths.py b/python/src/space/core/utils/paths.py
index 9bba268..ab174be 100644
--- a/python/src/space/core/utils/paths.py
+++ b/python/src/space/core/utils/paths.py
@@ -34,6 +34,8 @@ def new_index_file_path(data_dir_: str):
 
 def new_record_file_path(data_dir_: str, field_name: str):
   """Return a random record file path in a given data directory.."""
+  # A separator in the field name would lead to another directory.
+  field_name = field_name.replace("/", "_")
   return path.join(data_dir_, f"{field_name}_{uuid_()}.array_record")
 
 
-- 
2.43.0


From a1dad2e72f2475b20d130673e77dbc7bd3558780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 21/38] fix: reject schemas with duplicated field names

---
 python/src/space/core/schema/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/core/schema/utils.py b/python/src/space/core/schema/utils.py
index 96d05cc..59e0815 100644
--- a/python/src/space/core/schema/utils.py
+++ b/python/src/space/core/schema/utils.py
@@ -69,6 +69,8 @@ def validate_logical_schema(schema: pa.Schema, primary_keys: List[str],
     raise errors.UserInputError("Must specify at least one primary key")
 
   all_fields = set(schema.names)
+  if len(all_fields) != len(schema.names):
+    raise errors.UserInputError(f"Duplicated field names: {schema.names}")
 
   for name in primary_keys:
     if name not in all_fields:
-- 
2.43.0


From 7ee0b65c02b4ebb4239b009065f24c6340733137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 22/38] fix: read record fields whose name starts with a dot

---
 python/src/space/core/ops/read.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/ops/read.py b/python/src/space/core/ops/read.py
index 9094b91..7aeeebb 100644
--- a/python/src/space/core/ops/read.py
+++ b/python/src/space/core/ops/read.py
@@ -169,12 +169,15 @@ def read_record_column(paths: StoragePathsMixin,
   addresses = addresses.flatten().append_column(
       _RECORD_KEY_FIELD, [np.arange(num_rows)])  # type: ignore[arg-type]
 
-  if field is None:
-    file_path_field = f"{FILE_PATH_FIELD}"
-    row_id_field = f"{ROW_ID_FIELD}"
-  else:
-    file_path_field = f"{field}.{FILE_PATH_FIELD}"
-    row_id_field = f"{field}.{ROW_ID_FIELD}"
+  file_path_field, row_id_field = FILE_PATH_FIELD, ROW_ID_FIELD
+  if field is not None:
+    # Remove the prefix, a name starting with a dot is a path for Arrow.
+    names = {
+        schema_utils.file_path_field_name(field): file_path_field,
+        schema_utils.row_id_field_name(field): row_id_field
+    }
+    addresses = addresses.rename_columns(
+        [names.get(n, n) for n in addresses.column_names])
 
   # Record row IDs and records key co-grouped by file path, for processing
   # one file at a time to minimize file reads.
-- 
2.43.0


From 9512e89e843ee0fe6ff1c342076b20ab2f0d335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 23/38] fix: do not drop repeated addresses in the random
 access data source

---
 python/src/space/core/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 243412f..b646a26 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -271,7 +271,7 @@ def build_file_instructions(
       if i == len(indexes) - 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
-      elif indexes[i + 1] > idx + 1:
+      elif indexes[i + 1] != idx + 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
         start = indexes[i + 1]
-- 
2.43.0


From 7032e2e028735c50596a0818a9b3ede5f462ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 24/38] fix: do not infer partition columns from the path of a
 dataset in delete

---
 python/src/space/core/ops/delete.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index f9976d9..79f3c5f 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -145,7 +145,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
                                                      deleted_files)
     survivor_index_manifests = pq.ParquetDataset(
         [self.full_path(f) for f in deleted_manifest_files],
-        filters=survivor_files_filter).read()
+        filters=survivor_files_filter,
+        partitioning=None).read()
     if survivor_index_manifests.num_rows > 0:
       self._append_op.append_index_manifest(survivor_index_manifests)
 
-- 
2.43.0


From c5306873590c8909974bfe4dad3a959fc3b2f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 25/38] fix: load empty ArrayRecord files

---
 python/src/space/core/ops/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 82244be..3b9f213 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -47,7 +47,7 @@ def address_column(file_path: str, start_row: int,
   """Construct an record address column by a file path and row ID range."""
   return pa.StructArray.from_arrays(
       [
-          [file_path] * num_rows,  # type: ignore[arg-type]
+          pa.array([file_path] * num_rows, pa.string()),  # type: ignore[arg-type]
           np.arange(start_row, start_row + num_rows, dtype=np.int32)
       ],
       fields=arrow.record_address_types())  # type: ignore[arg-type]
-- 
2.43.0


From 373163dffe1b71343262fff3d84d89a4a882d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 26/38] fix: read external Parquet files having other field IDs

---
 python/src/space/core/ops/read.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/python/src/space/core/ops/read.py b/python/src/space/core/ops/read.py
index 7aeeebb..ad8fd22 100644
--- a/python/src/space/core/ops/read.py
+++ b/python/src/space/core/ops/read.py
@@ -84,11 +84,11 @@ class FileSetReadOp(BaseReadOp, StoragePathsMixin):
         record_fields,
         selected_fields=set(self._selected_fields))
 
-    self._index_field_ids = set(schema_utils.field_ids(self._index_fields))
-
-    self._record_fields_dict: Dict[int, schema_utils.Field] = {}
+    # Key is field name. Field IDs are not used for looking up fields, because
+    # external Parquet files may have no or different field IDs.
+    self._record_fields_dict: Dict[str, schema_utils.Field] = {}
     for f in self._record_fields:
-      self._record_fields_dict[f.field_id] = f
+      self._record_fields_dict[f.name] = f
 
   def __iter__(self) -> Iterator[pa.Table]:
     for file in self._file_set.index_files:
@@ -116,13 +116,12 @@ class FileSetReadOp(BaseReadOp, StoragePathsMixin):
       index_column_ids: List[int] = []
       record_columns: List[Tuple[int, pa.Field]] = []
       for column_id, field in enumerate(index_data.schema):
-        field_id = arrow.field_id(field)
-        if field_id in self._index_field_ids or field_id == arrow.NULL_FIELD_ID:
-          index_column_ids.append(column_id)
-        else:
+        if field.name in self._record_fields_dict:
           record_columns.append(
               (column_id,
-               arrow.binary_field(self._record_fields_dict[field_id])))
+               arrow.binary_field(self._record_fields_dict[field.name])))
+        else:
+          index_column_ids.append(column_id)
 
       if row_range_read:
         # The batch size is already applied via row slice range.
-- 
2.43.0


From cb9675698d95ce10d6cb218f97d0ad0f90769ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 27/38] fix: apply the batch size to reference reads

---
 python/src/space/core/ops/read.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/read.py b/python/src/space/core/ops/read.py
index ad8fd22..9195465 100644
--- a/python/src/space/core/ops/read.py
+++ b/python/src/space/core/ops/read.py
@@ -110,7 +110,13 @@ class FileSetReadOp(BaseReadOp, StoragePathsMixin):
         index_data = index_data.slice(file.row_slice.start, length)
 
       if self._options.reference_read:
-        yield index_data
+        if row_range_read:
+          yield index_data
+        else:
+          for batch in index_data.to_batches(
+              max_chunksize=self._options.batch_size):
+            yield pa.table(batch)
+
         continue
 
       index_column_ids: List[int] = []
-- 
2.43.0


From 8e34451274ccd1869639768cbf45ae679a9cfe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 28/38] fix: delete from several files of a manifest by Ray

Each file was deleted by its own task, which carried over the other modified
files of the manifest as survivors, so that their rows came back.
---
 python/src/space/ray/ops/delete.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/delete.py b/python/src/space/ray/ops/delete.py
index ee85a33..44c55e7 100644
--- a/python/src/space/ray/ops/delete.py
+++ b/python/src/space/ray/ops/delete.py
@@ -15,7 +15,7 @@
 """Distributed delete operation using Ray."""
 
 from __future__ import annotations
-from typing import Optional
+from typing import Dict, List, Optional
 
 import pyarrow.compute as pc
 import ray
@@ -45,11 +45,17 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     metadata = self._storage.metadata
     matched_file_set = self._storage.data_files(self._filter)
 
-    remote_delete_patches = []
+    # Index files in the same manifest must be processed together, because the
+    # survivor files in a modified manifest are carried over to a new manifest.
+    index_files: Dict[int, List[rt.DataFile]] = {}
     for index_file in matched_file_set.index_files:
+      index_files.setdefault(index_file.manifest_file_id, []).append(index_file)
+
+    remote_delete_patches = []
+    for files in index_files.values():
       # Deletion only needs index file information (no record file information).
       file_set = rt.FileSet(
-          index_files=[index_file],
+          index_files=files,
           # TODO: attach all manifest files here, to select related manifests.
           index_manifest_files=matched_file_set.index_manifest_files)
 
-- 
2.43.0


From 82eeeff816f94c120abaf82f68a112f71da8d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 29/38] fix: do not claim the row counts of filtered Ray blocks

Ray answers count() from the block metadata, which ignored the filter.
---
 python/src/space/ray/data_sources.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/src/space/ray/data_sources.py b/python/src/space/ray/data_sources.py
index b5c45c9..60168dc 100644
--- a/python/src/space/ray/data_sources.py
+++ b/python/src/space/ray/data_sources.py
@@ -98,9 +98,11 @@ class _SpaceDataSourceReader(Reader):
             ReadTask(self._read_fn(index_file), _block_metadata(None)))
         continue
 
+      # The number of rows is unknown when rows are selected.
       # TODO: to compute num rows from bitmap.
-      has_bitmap = (index_file.HasField("row_bitmap") and
-                    not index_file.row_bitmap.all_rows)
+      row_selected = (self._read_options.filter_ is not None or
+                      (index_file.HasField("row_bitmap") and
+                       not index_file.row_bitmap.all_rows))
 
       if (self._ray_options.enable_row_range_block and
           self._read_options.batch_size):
@@ -120,14 +122,14 @@ class _SpaceDataSourceReader(Reader):
           rows.start = i * batch_size
           rows.end = min((i + 1) * batch_size, num_rows)
 
-          slice_num_rows = None if has_bitmap else (rows.end - rows.start)
+          slice_num_rows = None if row_selected else (rows.end - rows.start)
           read_tasks.append(
               ReadTask(self._read_fn(index_file_slice),
                        _block_metadata(slice_num_rows)))
       else:
         read_tasks.append(
             ReadTask(self._read_fn(index_file),
-                     _block_metadata(None if has_bitmap else num_rows)))
+                     _block_metadata(None if row_selected else num_rows)))
 
     return read_tasks
 
-- 
2.43.0


From aa57af5572c8d79898c1c1976eb3f9318bef2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 30/38] fix: refresh materialized views from the latest
 versions

The start and end versions were taken from the storages before reloading them,
so that a stale handle skipped new changes or applied old changes again.
---
 python/src/space/ray/runners.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 0cfa206..d084eb6 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -179,6 +179,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     TODO: refreshing from a large source is slow, to save refresh state and
     resume from saved state, if any failure happens.
     """
+    self._source_storage.reload()
     source_snapshot_id = self._source_storage.metadata.current_snapshot_id
     if target_version is None:
       end_snapshot_id = source_snapshot_id
@@ -190,13 +191,14 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
             f"Target snapshot ID {end_snapshot_id} higher than source dataset "
             f"version {source_snapshot_id}")
 
-    start_snapshot_id = self._storage.metadata.current_snapshot_id
-
     job_results: List[JobResult] = []
     patches: List[Optional[rt.Patch]] = []
     previous_snapshot_id: Optional[int] = None
 
+    # The transaction reloads the storage.
     txn = self._start_txn()
+    start_snapshot_id = self._storage.metadata.current_snapshot_id
+
     for change in self.diff_ray(start_snapshot_id, end_snapshot_id, batch_size):
       assert isinstance(change.data, list)
 
-- 
2.43.0


From 044ccb1f73defe130b417b9bb873814fef4f272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 31/38] fix: align versions of a materialized view with its
 source

A source version without effect on the view, or the version of a branch, made
the version IDs of the view fall behind, and the next refresh applied changes
twice. The view now commits with the version ID of the source.
---
 python/src/space/core/storage.py | 28 +++++++++++++++++++++++-----
 python/src/space/ray/runners.py  |  7 ++++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7bd4c44..4964f3f 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -320,7 +320,10 @@ class Storage(paths.StoragePathsMixin):
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
 
-  def commit(self, patch: rt.Patch, branch: str) -> None:
+  def commit(self,
+             patch: rt.Patch,
+             branch: str,
+             snapshot_id: Optional[int] = None) -> None:
     """Commit changes to the storage.
 
     TODO: only support a single writer; to ensure atomicity in commit by
@@ -329,10 +332,18 @@ class Storage(paths.StoragePathsMixin):
     Args:
       patch: a patch describing changes made to the storage.
       branch: the branch this commit is writing to.
+      snapshot_id: ID of the new snapshot, default to the next unused ID.
     """
     new_metadata = meta.StorageMetadata()
     new_metadata.CopyFrom(self._metadata)
-    new_snapshot_id = self._next_snapshot_id()
+    if snapshot_id is None:
+      new_snapshot_id = self._next_snapshot_id()
+    elif snapshot_id <= self._max_snapshot_id:
+      raise errors.SpaceRuntimeError(
+          f"Snapshot ID {snapshot_id} is not higher than existing snapshots")
+    else:
+      new_snapshot_id = self._max_snapshot_id = snapshot_id
+
     if branch != _MAIN_BRANCH:
       branch_snapshot = self.lookup_reference(branch)
       # To block the case delete branch and add a tag during commit
@@ -563,8 +574,15 @@ class Transaction:
     self._branch = storage.current_branch
     self._result: Optional[JobResult] = None
 
-  def commit(self, patch: Optional[rt.Patch]) -> None:
-    """Commit the transaction."""
+  def commit(self,
+             patch: Optional[rt.Patch],
+             snapshot_id: Optional[int] = None) -> None:
+    """Commit the transaction.
+
+    Args:
+      patch: a patch describing changes made to the storage.
+      snapshot_id: ID of the new snapshot, default to the next unused ID.
+    """
     assert self._result is None
 
     # Check that no other commit has taken place.
@@ -582,7 +600,7 @@ class Transaction:
       self._result = JobResult(JobResult.State.SKIPPED)
       return
 
-    self._storage.commit(patch, self._branch)
+    self._storage.commit(patch, self._branch, snapshot_id)
     self._result = JobResult(JobResult.State.SUCCEEDED,
                              patch.storage_statistics_update)
 
diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index d084eb6..14a353f 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -202,10 +202,11 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     for change in self.diff_ray(start_snapshot_id, end_snapshot_id, batch_size):
       assert isinstance(change.data, list)
 
-      # Commit when changes from the same snapshot end.
+      # Commit when changes from the same snapshot end, using the same snapshot
+      # ID as the source to tell which changes have been applied.
       if (previous_snapshot_id is not None and
           change.snapshot_id != previous_snapshot_id):
-        txn.commit(utils.merge_patches(patches))
+        txn.commit(utils.merge_patches(patches), previous_snapshot_id)
         patches.clear()
 
         # Stop early when something is wrong.
@@ -232,7 +233,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       previous_snapshot_id = change.snapshot_id
 
     if patches:
-      txn.commit(utils.merge_patches(patches))
+      txn.commit(utils.merge_patches(patches), previous_snapshot_id)
       job_results.append(txn.result())
 
     return job_results
-- 
2.43.0


From 623f6962d5fba744ebc02488a439d499bab8c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 32/38] fix: joins without matching rows in a range return no
 rows

---
 python/src/space/ray/ops/join.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 867fe64..a2ef8d0 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -96,7 +96,7 @@ class RayJoinOp:
                                  self._left_record_fields),
               _JoinInputInternal(right_ds, self._right.reference_read,
                                  self._right_record_fields), self._join_key,
-              self._schema.names))
+              self._schema))
 
     return ray.data.from_arrow_refs(results)
 
@@ -110,10 +110,10 @@ class _JoinInputInternal:
 
 @ray.remote
 def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
-          output_fields: List[str]) -> Optional[pa.Table]:
+          output_schema: pa.Schema) -> pa.Table:
   left_data, right_data = _read_all(left.ds), _read_all(right.ds)
   if left_data is None or right_data is None:
-    return None
+    return output_schema.empty_table()
 
   # PyArrow does not support joining struct, so tables are flattened.
   # TODO: we only flatten/fold record addresses field. If any other fields are
@@ -133,8 +133,8 @@ def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
   if right.reference_read:
     result = _fold_addresses(result, right.record_fields)
 
-  # output_fields is used for re-ordering fields.
-  return result.select(output_fields)
+  # output_schema is used for re-ordering fields.
+  return result.select(output_schema.names)
 
 
 def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
-- 
2.43.0


From 28bb9deb9933c516ff6dd50fc2ebfac8bb53174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 33/38] fix: find the join key range by the field IDs of the
 source

---
 python/src/space/ray/ops/join.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index a2ef8d0..2140530 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -146,7 +146,10 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
-  schema = input_.view.schema
+  # Statistics use the field IDs of the source dataset, which differ from the
+  # field IDs of transforms' output schemas.
+  storage = singleton_storage(input_.view)
+  schema = storage.logical_schema
   field_name_ids = arrow.field_name_to_id_dict(schema)
   if field_name not in field_name_ids:
     raise errors.UserInputError(
@@ -156,7 +159,7 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
 
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
-  for manifest in singleton_storage(input_.view).index_manifest():
+  for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-- 
2.43.0


From d3787a3b66ebb5a29e7f15c4dd739e464b167053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 34/38] fix: skip manifests without non-null join keys in join
 ranges

---
 python/src/space/ray/ops/join.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 2140530..399f4c0 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -164,6 +164,10 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
         stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
+    if batch_min is None:
+      # All join keys in the manifest are null, which never match.
+      continue
+
     min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
         min_, batch_min)
 
-- 
2.43.0


From 8ad110ef0162dfcde3fde88475c6f1f84c3c18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 35/38] fix: a file in the catalog directory is not a dataset

---
 python/src/space/catalogs/directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/catalogs/directory.py b/python/src/space/catalogs/directory.py
index 57634b4..4d182e2 100644
--- a/python/src/space/catalogs/directory.py
+++ b/python/src/space/catalogs/directory.py
@@ -53,7 +53,7 @@ class DirCatalog(BaseCatalog):
   def dataset(self, name: str) -> Union[Dataset, MaterializedView]:
     try:
       storage = Storage.load(self._dataset_location(name))
-    except FileNotFoundError as e:
+    except (FileNotFoundError, NotADirectoryError) as e:
       raise errors.StorageNotFoundError(str(e)) from None
 
     if storage.metadata.type == meta.StorageMetadata.DATASET:
-- 
2.43.0


From 2504f64d5f8171540eae5cc655cdc9b6d63d02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 36/38] fix: join misses keys of files with unknown key
 statistics

---
 python/src/space/ray/ops/join.py | 40 +++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 399f4c0..2624f8e 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -20,6 +20,7 @@ from typing import List, Optional, TYPE_CHECKING
 
 import pyarrow as pa
 import pyarrow.compute as pc
+import pyarrow.parquet as pq
 import ray
 
 from space.core.options import JoinOptions, Range, ReadOptions
@@ -161,20 +162,31 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
   min_, max_ = None, None
   for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
-
-    batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
-    if batch_min is None:
-      # All join keys in the manifest are null, which never match.
-      continue
-
-    min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
-        min_, batch_min)
-
-    batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MAX_FIELD)).as_py()  # type: ignore[arg-type]
-    max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
-        max_, batch_max)
+    mins, maxs = (
+        stats.field(constants.MIN_FIELD),  # type: ignore[arg-type]
+        stats.field(constants.MAX_FIELD))  # type: ignore[arg-type]
+
+    bounds = [(mins, maxs)]
+    # A file has no statistics when its join keys are all null, which never
+    # match, but also when they are unknown, e.g., the keys are too large.
+    unknown = manifest.filter(pc.or_(mins.is_null(), maxs.is_null()))
+    for file in unknown.column(constants.FILE_PATH_FIELD).to_pylist():
+      keys = pq.read_table(storage.full_path(file),
+                           columns=[field_name]).column(field_name)
+      bounds.append((keys, keys))
+
+    for lower, upper in bounds:
+      batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
+          lower).as_py()
+      batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
+          upper).as_py()
+      if batch_min is None or batch_max is None:
+        continue
+
+      min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
+          min_, batch_min)
+      max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
+          max_, batch_max)
 
   if min_ is None and max_ is None:
     return None
-- 
2.43.0


From 29f62c13bbac04f8316d513a362f3fa790060b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 37/38] fix: insert and upsert of some dozens of rows
 practically never finish

---
 python/src/space/core/ops/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 3b9f213..42cc521 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -63,7 +63,7 @@ def primary_key_filter(primary_keys: List[str],
   for key in primary_keys:
     columns.append(data.column(key).combine_chunks())
 
-  filter_ = None
+  row_filters: List[pc.Expression] = []
   filter_strs: Set[str] = set()
   for i_row in range(data.num_rows):
     row_filter = None
@@ -83,12 +83,17 @@ def primary_key_filter(primary_keys: List[str],
 
     filter_strs.add(filter_str)
 
-    if filter_ is None:
-      filter_ = row_filter
-    else:
-      filter_ |= row_filter
+    row_filters.append(row_filter)  # type: ignore[arg-type]
 
-  return filter_
+  # Build a balanced tree of filters. The cost of handling an expression in
+  # Arrow is exponential in its depth.
+  while len(row_filters) > 1:
+    row_filters = [
+        row_filters[i] if i + 1 == len(row_filters) else row_filters[i]
+        | row_filters[i + 1] for i in range(0, len(row_filters), 2)
+    ]
+
+  return row_filters[0] if row_filters else None
 
 
 def merge_patches(patches: List[Optional[rt.Patch]]) -> Optional[rt.Patch]:
-- 
2.43.0


From adfef75fefa5eb37120f409a4e35cc0c8bb50b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:24 +0000
Subject: [PATCH 38/38] fix: delete fails on data with a field named __ROW_ID

---
 python/src/space/core/ops/delete.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 79f3c5f..881380d 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -94,8 +94,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     for file in self._file_set.index_files:
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
+      row_id_field = _row_id_field(index_data.column_names)
       index_data = index_data.append_column(
-          _ROW_ID_FIELD,
+          row_id_field,
           pa.array(np.arange(0, index_data.num_rows,
                              dtype=np.int32)))  # type: ignore[arg-type]
       index_data = index_data.filter(mask=self._reinsert_filter)
@@ -112,8 +113,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
 
       # Compute deleted row bitmap for change log.
       patch.change_log.deleted_rows.append(
-          _build_bitmap(file, index_data, all_deleted))
-      index_data = index_data.drop(_ROW_ID_FIELD)  # type: ignore[attr-defined]
+          _build_bitmap(file, index_data, all_deleted, row_id_field))
+      index_data = index_data.drop(row_id_field)  # type: ignore[attr-defined]
 
       # Record deleted files and manifests information.
       deleted_files.append(file.path)
@@ -196,8 +197,17 @@ def _validate_files(file_set: rt.FileSet) -> bool:
   return not file_set.index_files or len(file_set.index_manifest_files) > 0
 
 
-def _build_bitmap(file: rt.DataFile, index_data: pa.Table,
-                  all_deleted: bool) -> meta.RowBitmap:
+def _row_id_field(column_names: List[str]) -> str:
+  """Return a row ID field name that is not used by the data."""
+  field_name = _ROW_ID_FIELD
+  while field_name in column_names:
+    field_name += "_"
+
+  return field_name
+
+
+def _build_bitmap(file: rt.DataFile, index_data: pa.Table, all_deleted: bool,
+                  row_id_field: str) -> meta.RowBitmap:
   row_bitmap = meta.RowBitmap(file=file.path,
                               num_rows=file.storage_statistics.num_rows)
   if all_deleted:
@@ -205,7 +215,7 @@ def _build_bitmap(file: rt.DataFile, index_data: pa.Table,
   else:
     deleted_bitmaps = BitMap()
     deleted_bitmaps.add_range(0, file.storage_statistics.num_rows)
-    survivor_bitmaps = BitMap(index_data.column(_ROW_ID_FIELD).to_numpy())
+    survivor_bitmaps = BitMap(index_data.column(row_id_field).to_numpy())
     deleted_bitmaps.difference_update(survivor_bitmaps)
     row_bitmap.roaring_bitmap = deleted_bitmaps.serialize()
 
-- 
2.43.0

