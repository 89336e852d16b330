"""P25: files and row groups keep to the sizes given in the file options."""

import collections
import itertools
import os
import re

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq
from array_record.python import array_record_module as ar

from mc import harness, sched
from mc.harness import exc_str, violation

from space import (ArrayRecordOptions, Dataset, FileOptions,
                   ParquetWriterOptions, RayOptions)

ROW = 16  # bytes of a row of two int64 fields
REC = 1000  # bytes of a record
SCHEMA = pa.schema([("k", pa.int64()), ("v", pa.int64())])
RSCHEMA = pa.schema([("k", pa.int64()), ("r", pa.binary())])
NONE = 1 << 40


def options(rg, file, rec=NONE, group=1):
  """Limits in rows (index files) and records (record files)."""
  return FileOptions(
      ParquetWriterOptions(int(rg * ROW), int(file * ROW)),
      ArrayRecordOptions(int(rec * REC), f"group_size:{group}"))


def table(keys, v=0):
  return pa.table({"k": list(keys), "v": [v] * len(keys)}, schema=SCHEMA)


def rtable(keys):
  return pa.table({"k": list(keys), "r": [b"%06d" % k + b"x" * (REC - 6)
                                          for k in keys]}, schema=RSCHEMA)


def row_groups(path):
  """Keys of each row group of a file."""
  f = pq.ParquetFile(path)
  return [f.read_row_group(i, columns=["k"]).column("k").to_pylist()
          for i in range(f.num_row_groups)]


def split(batches):
  """Key -> number of its batch."""
  return {k: i for i, b in enumerate(batches) for k in b}


def check_index(files, batch_of, rg, file, small, trace):
  """files: path -> keys of its row groups; limits in rows.

  A batch is what is written at once, `small` how many writers may have left a
  rest. Sizes equal to a limit may be on either side of it.
  """
  small_groups = small_files = 0
  for path, groups in files.items():
    sizes = [len(g) for g in groups]
    for g in groups:
      per_batch = collections.Counter(batch_of[k] for k in g)
      if len(g) - max(per_batch.values()) > rg:
        return [violation("row-group-size", f"a row group of {len(g)} rows of "
                          f"batches {dict(per_batch)}, limit {rg}", trace)]
      small_groups += len(g) < rg
    if sum(sizes[:-1]) > file:
      return [violation("file-size", f"a file of row groups of {sizes} rows, "
                        f"limit {file}", trace)]
    small_files += sum(sizes) < file
  if small_groups > small:
    return [violation("small-row-groups", f"{small_groups} row groups below "
                      f"the limit of {rg} rows by {small} writers", trace)]
  if small_files > small:
    return [violation("small-files", f"{small_files} files below the limit of "
                      f"{file} rows by {small} writers", trace)]
  return []


def check_records(files, batch_of, rec, small, trace):
  """files: path -> keys."""
  few = 0
  for path, keys in files.items():
    per_batch = collections.Counter(batch_of[k] for k in keys)
    if len(keys) - max(per_batch.values()) > rec:
      return [violation("record-file-size", f"a file of {len(keys)} records of "
                        f"batches {dict(per_batch)}, limit {rec}", trace)]
    few += len(keys) < rec
  if few > small:
    return [violation("small-record-files", f"{few} record files below the "
                      f"limit of {rec} by {small} writers", trace)]
  return []


def index_files(ds, old=()):
  return {p: row_groups(p) for p in ds.index_files() if p not in old}


def ends(sizes):
  out, pos = [], 0
  for n in sizes:
    out.append(list(range(pos, pos + n)))
    pos += n
  return out


def runner(ds, opts, ray):
  if not ray:
    return ds.local(opts)
  sched.use(sched.Schedule(last=ray == 3))
  return ds.ray(RayOptions(max_parallelism=ray), opts)


def _index_task(item):
  """Batches of given sizes; then a delete and an upsert rewrite the files."""
  sizes, limits, ray, how = item
  out = {"violations": [], "states": 1, "transitions": 0, "traces": 1,
         "counts": {}}
  loc = harness.new_dir("p25")
  ds = Dataset.create(loc, SCHEMA, ["k"], [])
  batches = ends(sizes)
  trace = [f"batches of {sizes} rows, limits (row group, file) {limits}, "
           + (f"ray {ray}" if ray else "local"), how]
  rg, file = limits

  def step(name, fn, batch_of, small):
    if out["violations"]:
      return
    old = set(ds.index_files())
    try:
      state = fn(runner(ds, options(rg, file), ray)).state.name
    except Exception as e:  # pylint: disable=broad-except
      out["violations"].append(violation(f"raised:{name}", exc_str(e), trace))
      return
    out["transitions"] += 1
    if state != "SUCCEEDED":
      out["violations"].append(violation(f"state:{name}", state, trace))
      return
    new = index_files(ds, old)
    c = out["counts"]
    c["files"] = c.get("files", 0) + len(new)
    c["row_groups"] = c.get("row_groups", 0) + sum(map(len, new.values()))
    out["violations"] += check_index(new, batch_of, rg, file, small,
                                     trace + [name])

  actors = ray or 1
  tables = [table(b) for b in batches]
  if how == "append":  # in one batch
    step("append", lambda r: r.append(pa.concat_tables(tables)),
         split([sum(batches, [])]), actors)
  elif how == "insert":
    step("insert", lambda r: r.insert(pa.concat_tables(tables)),
         split([sum(batches, [])]), actors)
  elif how == "dicts":
    step("append_from", lambda r: r.append_from(
        lambda: iter([t.to_pydict() for t in tables])), split(batches), 1)
  elif how == "sources":
    step("append_from", lambda r: r.append_from(
        [(lambda t=t: iter([t])) for t in tables]), split(batches), actors)
  else:
    step("append_from", lambda r: r.append_from(lambda: iter(tables)),
         split(batches), 1)
  if out["violations"]:
    harness.rm(loc)
    return out
  n = sum(sizes)

  def by_file():
    return {k: p for p, groups in index_files(ds).items()
            for g in groups for k in g}

  # What is left of a file is written at once.
  if n > 1:
    where = by_file()
    step("delete", lambda r: r.delete(
        (pc.bit_wise_and(pc.field("k"), pc.scalar(1)) == 1)), where, actors)
    where = by_file()
    new = {k: "new" for k in range(0, n + 4, 4)}
    step("upsert", lambda r: r.upsert(table(sorted(new), 1)), {**where, **new},
         2 * actors)
  harness.rm(loc)
  return out


def _record_task(item):
  """Record files, by appends and upserts, and loads of external records."""
  sizes, rec, group, ray, how = item
  out = {"violations": [], "states": 1, "transitions": 0, "traces": 1,
         "counts": {}}
  loc = harness.new_dir("p25r")
  ds = Dataset.create(loc, RSCHEMA, ["k"], ["r"])
  batches = ends(sizes)
  trace = [f"batches of {sizes} records, limit {rec}, group size {group}, "
           + (f"ray {ray}" if ray else "local"), how]
  opts = options(NONE, NONE, rec, group)
  r = runner(ds, opts, ray)
  tables = [rtable(b) for b in batches]
  small = 1
  if how == "upsert":
    batches = [sum(batches, [])]
    res = r.upsert(pa.concat_tables(tables))
    small = ray or 1
  elif how == "sources":
    res = r.append_from([(lambda t=t: iter([t])) for t in tables])
    small = ray or 1
  else:
    res = r.append_from(lambda: iter(tables))
  out["transitions"] += 1
  if res.state.name != "SUCCEEDED":
    out["violations"].append(violation("state", res.state.name, trace))
  else:
    t = ds.local().read_all(reference_read=True).flatten().to_pydict()
    files = {}
    for k, p in zip(t["k"], t["r._FILE"]):
      files.setdefault(p, []).append(k)
    out["counts"]["record_files"] = len(files)
    out["violations"] += check_records(files, split(batches), rec, small,
                                       trace)
    for p in files:
      reader = ar.ArrayRecordReader(os.path.join(loc, p))
      got = re.search(r"group_size:(\d+)", reader.writer_options_string())
      reader.close()
      if not got or int(got.group(1)) != group:
        out["violations"].append(violation(
            "record-options", f"group size {got and got.group(1)}", trace))
        break
  harness.rm(loc)
  return out


def _load_task(item):
  """Index files of loaded ArrayRecord files: a file is a batch."""
  sizes, limits, ray = item
  out = {"violations": [], "states": 1, "transitions": 1, "traces": 1,
         "counts": {}}
  loc, ext = harness.new_dir("p25l"), harness.new_dir("p25e")
  os.makedirs(ext)
  for i, b in enumerate(ends(sizes)):
    w = ar.ArrayRecordWriter(f"{ext}/x{i}", "group_size:1")
    for k in b:
      w.write(b"%d" % k)
    w.close()
  schema = pa.schema([("k", pa.int64()), ("v", pa.int64()),
                      ("r", pa.binary())])
  ds = Dataset.create(loc, schema, ["k"], ["r"])
  # A row: two integers, the address (an offset, the path and a position).
  row = (16 + 4 + 4 + len(os.path.relpath(f"{ext}/x0", loc))) / ROW
  path = (16 + 4 + 4 + len(f"{ext}/x0")) / ROW
  rg, file = limits
  lo, hi = min(row, path), max(row, path)
  trace = [f"files of {sizes} records, limits of {limits} rows"]
  res = runner(ds, options(rg * hi, file * hi), ray).append_array_record(
      ext + "/*", lambda r: {"k": int(r["r"][0]), "v": 0})
  if res.state.name != "SUCCEEDED":
    out["violations"].append(violation("state:load", res.state.name, trace))
  else:
    # The bytes of an address are not prescribed: some tolerance.
    files = index_files(ds)
    batch_of = split(ends(sizes))
    for p, groups in files.items():
      for g in groups:
        per = collections.Counter(batch_of[k] for k in g)
        if (len(g) - max(per.values())) * lo * 0.8 > rg * hi:
          out["violations"].append(violation(
              "load-row-group-size", f"a row group of {len(g)} rows", trace))
      if sum(map(len, groups[:-1])) * lo * 0.8 > file * hi:
        out["violations"].append(violation(
            "load-file-size", f"row groups of {list(map(len, groups))} rows",
            trace))
    if sum(sizes) * hi * 1.3 < file * hi and len(files) > (ray or 1):
      out["violations"].append(violation(
          "load-small-files", f"{len(files)} index files", trace))
  harness.rm(loc)
  harness.rm(ext)
  return out


def _default_task(item):
  """The default limits."""
  ray, how = item
  out = {"violations": [], "states": 1, "transitions": 1, "traces": 1,
         "counts": {}}
  loc = harness.new_dir("p25d")
  ds = Dataset.create(loc, SCHEMA, ["k"], [])
  n, size = 250, 1000  # 16 KB each, 4 MB in all
  k = np.arange(n * size)
  tables = [pa.table({"k": k[i:i + size], "v": k[i:i + size]}, schema=SCHEMA)
            for i in range(0, n * size, size)]
  r = runner(ds, None, ray) if how == "none" else runner(ds, FileOptions(), ray)
  r.append_from(lambda: iter(tables))
  d = ParquetWriterOptions()
  out["violations"] += check_index(
      index_files(ds), {int(x): int(x) // size for x in k},
      d.max_uncompressed_row_group_bytes / ROW,
      d.max_uncompressed_file_bytes / ROW, 1, [f"default limits, {item}"])
  harness.rm(loc)
  return out


def _call(item):
  fn, arg = item
  return fn(arg)


def run(report, tier):
  quick = tier == "quick"
  n, top = (4, 3) if quick else (5, 3)
  shapes = [s for m in range(1, n + 1)
            for s in itertools.product(range(1, top + 1), repeat=m)]
  limits = [(0, 0), (1, 3), (1.5, 2.5), (2.5, 4.5), (3.5, 0), (3.5, 100),
            (100, 100), (2, 6)]
  items = []
  for i, (s, lim) in enumerate(itertools.product(shapes, limits)):
    items.append((_index_task, (s, lim, 0, "tables")))
    if not quick or i % 4 == 0:
      items.append((_index_task, (s, lim, 0, ("dicts", "append", "insert",
                                             "sources")[i // 4 % 4])))
    if not quick or i % 7 == 0:
      items.append((_index_task, (s, lim, 2 + i % 2, ("sources", "tables",
                                                     "append")[i % 3])))
  for i, (s, rec) in enumerate(itertools.product(
      shapes, (0, 0.5, 1.5, 2.5, 3.5, 100))):
    items.append((_record_task, (s, rec, 1 + 3 * (i % 2), 0, "tables")))
    if not quick or i % 5 == 0:
      items.append((_record_task, (s, rec, 4 - 3 * (i % 2), (0, 2)[i // 5 % 2],
                                   ("upsert", "sources")[i // 10 % 2])))
  for s in shapes:
    if not quick or len(s) <= 3:
      items += [(_load_task, (s, lim, ray)) for lim in limits[:7]
                for ray in ((0,) if quick else (0, 2))]
  items += [(_default_task, (ray, how)) for ray in (0, 2)
            for how in ("none", "given")]
  for r in harness.pmap(_call, items, chunksize=8):
    report.merge(r)
  report.sample({"batches": shapes[-1], "limits": limits[-1]})
  report.bounds.append(
      f"all sequences of up to {n} batches of 1 to {top} rows x "
      f"{len(limits)} pairs of limits, then a delete and an upsert rewriting "
      "the files; record files x 6 limits x 2 group sizes; loads; defaults; "
      + ("" if not quick else "a quarter of them also ")
      + "by other inputs and distributed")
  report.assumptions.append(
      "a batch (a table given at once, or what is left of a rewritten file) is "
      "not split; sizes equal to a limit may be on either side of it")
