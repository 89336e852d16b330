"""Invariant of a version: manifests and statistics describe its files."""

import os

import pyarrow.parquet as pq
from array_record.python import array_record_module as ar

from mc.harness import exc_str, violation
from mc.model import freeze_row
from collections import Counter


def totals(ds, snapshot_id):
  s = ds.storage.snapshot(snapshot_id).storage_statistics
  return (s.num_rows, s.index_compressed_bytes, s.index_uncompressed_bytes,
          s.record_uncompressed_bytes)


def manifest_rows(tables):
  return [r for t in tables for r in t.to_pylist()]


def check_version(ds, world, rows, trace, snapshot_id=None, counts=None,
                  external=False):
  """Violations of the invariant in one version with the given rows."""
  try:
    return _check(ds, world, rows, trace, snapshot_id,
                  counts if counts is not None else {}, external)
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"manifest-raised:{type(e).__name__}", exc_str(e), trace)]


def _check(ds, world, rows, trace, snapshot_id, counts, external):
  loc = ds.storage.location
  full = lambda p: p if os.path.isabs(p) else os.path.join(loc, p)
  bad = lambda sig, msg: [violation(sig, msg, trace)]
  ids = {f.name: int(f.metadata[b"PARQUET:field_id"])
         for f in ds.storage.physical_schema}
  plain = [f for f in world.fields if f not in world.rec]

  files = manifest_rows(ds.storage.index_manifest(snapshot_id=snapshot_id))
  names = [f["_FILE"] for f in files]
  # An external file is listed once for each time it was loaded.
  own = [n for n in names if not (external and os.path.isabs(n))]
  if len(set(map(full, own))) != len(own):
    return bad("file-listed-twice", f"{names}")
  got = Counter()
  addresses = []
  sums = [0, 0, 0]
  for f in files:
    path = full(f["_FILE"])
    if not os.path.isfile(path):
      return bad("file-missing", f"{f['_FILE']} is listed but does not exist")
    pf = pq.ParquetFile(path)
    md = pf.metadata
    if f["_NUM_ROWS"] != md.num_rows:
      return bad("file-rows", f"{f} but the file has {md.num_rows} rows")
    if not f["_NUM_ROWS"]:
      return bad("file-empty", f"{f} has no rows")
    cols = {md.schema.column(i).path: i for i in range(md.num_columns)}
    groups = [md.row_group(i) for i in range(md.num_row_groups)]
    comp = sum(g.column(cols[k]).total_compressed_size
               for g in groups for k in world.pk)
    unc = sum(g.column(cols[k]).total_uncompressed_size
              for g in groups for k in world.pk)
    if (f["_INDEX_COMPRESSED_BYTES"], f["_INDEX_UNCOMPRESSED_BYTES"]) != (
        comp, unc):
      return bad("file-bytes", f"{f}, expected {comp} and {unc} bytes")
    table = pf.read()
    data = table.to_pylist()
    for k in world.pk:
      st = f[f"_STATS_f{ids[k]}"] or {"_MIN": None, "_MAX": None}
      lo, hi = st["_MIN"], st["_MAX"]
      vals = [r[k] for r in data if r[k] is not None and r[k] == r[k]]
      if lo is not None and any(v < lo for v in vals) or (
          hi is not None and any(v > hi for v in vals)):
        return bad("file-bounds", f"{f['_FILE']}.{k}: [{lo!r}, {hi!r}] does "
                   f"not enclose {vals}")
      counts["stats"] = counts.get("stats", 0) + 1
      counts["stats_known"] = counts.get("stats_known", 0) + (lo is not None)
    for r in data:
      got[freeze_row(r, plain)] += 1
      for x in world.rec:
        addresses.append((x, r[x]))
    for i, v in enumerate((md.num_rows, comp, unc)):
      sums[i] += v
    counts["files"] = counts.get("files", 0) + 1

  want = Counter(freeze_row(r, plain) for r in rows)
  if got != want:
    return bad("file-union", f"rows of the listed files: {got}, rows of the "
               f"version: {want}")

  records = manifest_rows(ds.storage.record_manifest(snapshot_id=snapshot_id))
  names = [f["_FILE"] for f in records]
  if len(set(names)) != len(names):
    return bad("record-file-listed-twice", f"{names}")
  listed, record_bytes = {}, 0
  for f in records:
    path = full(f["_FILE"])
    if not os.path.isfile(path):
      return bad("record-file-missing", f"{f['_FILE']}")
    reader = ar.ArrayRecordReader(path)
    n = reader.num_records()
    payload = sum(map(len, reader.read_all())) if n else 0
    reader.close()
    if f["_NUM_ROWS"] != n:
      return bad("record-file-rows", f"{f} but the file has {n} records")
    if f["_FIELD_ID"] not in [ids[x] for x in world.rec]:
      return bad("record-file-field", f"{f}: not the ID of a record field")
    # The payload, plus offsets and validity of the in-memory columns.
    if not payload <= f["_UNCOMPRESSED_BYTES"] <= payload + 16 * (n + 8):
      return bad("record-file-bytes", f"{f} but the records have {payload}")
    listed[f["_FILE"]] = (f["_FIELD_ID"], n)
    record_bytes += f["_UNCOMPRESSED_BYTES"]
    counts["record_files"] = counts.get("record_files", 0) + 1
  for x, a in addresses:
    path, pos = a["_FILE"], a["_ROW_ID"]
    if path not in listed:
      if external and os.path.isfile(full(path)):
        continue
      return bad("record-file-unlisted", f"a row refers to {path}:{pos}, which "
                 f"is in no record manifest")
    if listed[path][0] != ids[x] or not 0 <= pos < listed[path][1]:
      return bad("record-address", f"{x} refers to {path}:{pos}; the manifest "
                 f"says {listed[path]}, field ID is {ids[x]}")

  # The bytes of external record files are in no record manifest.
  if external:
    record_bytes = totals(ds, snapshot_id)[3]
  want = (sums[0], sums[1], sums[2], record_bytes)
  if totals(ds, snapshot_id) != want:
    return bad("statistics", f"version statistics {totals(ds, snapshot_id)}, "
               f"files say {want} (rows, compressed, uncompressed, record "
               "bytes)")
  listed = sorted(ds.index_files(snapshot_id))
  if listed != sorted(full(f["_FILE"]) for f in files):
    return bad("index-files", f"index_files() lists {listed}")
  return []


def check_delta(before, result, after, trace):
  """Statistics of a job against those of the versions around it."""
  s = result.storage_statistics_update
  got = (0, 0, 0, 0) if s is None else (
      s.num_rows, s.index_compressed_bytes, s.index_uncompressed_bytes,
      s.record_uncompressed_bytes)
  want = tuple(a - b for a, b in zip(after, before))
  if got != want:
    return [violation("job-statistics", f"the job reports {got}, the version "
                      f"statistics changed by {want}", trace)]
  return []
