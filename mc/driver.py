"""Drives the real implementation (google/space) and observes it."""

import os
import shutil

import pyarrow as pa
import pyarrow.parquet as pq

from space import ArrayRecordOptions, Dataset, FileOptions
from space import ParquetWriterOptions, RayOptions

from mc import expr
from mc.harness import exc_str, violation
from mc.model import Model, freeze_row
from collections import Counter


def _fo(rg=None, file=None, ar=None):
  p, a = {}, {}
  if rg is not None:
    p["max_uncompressed_row_group_bytes"] = rg
  if file is not None:
    p["max_uncompressed_file_bytes"] = file
  if ar is not None:
    a["max_uncompressed_file_bytes"] = ar
  return FileOptions(parquet_options=ParquetWriterOptions(**p),
                     array_record_options=ArrayRecordOptions(**a))


# File options: default; one row group per write (rg); one file per write
# (file); a new record file per write (ar); thresholds in the middle (mid*).
OPTIONS = {
    "default": _fo(),
    "rg": _fo(rg=1),
    "file": _fo(rg=1, file=1),
    "ar": _fo(ar=1),
    "rgar": _fo(rg=1, ar=1),
    "filear": _fo(rg=1, file=1, ar=1),
    "mid": _fo(rg=40, file=80, ar=3),
    # Fields of short and long records are cut at different rows.
    "cut": _fo(ar=15),
}


class World:
  """A schema and what the reference model needs to know about it."""

  def __init__(self, name, schema, pk, rec=(), types=None):
    self.name = name
    self.schema = pa.schema(schema)
    self.pk, self.rec = list(pk), list(rec)
    self.fields = self.schema.names
    # Types of literals in filters.
    self.types = types

  def create(self, location):
    return Dataset.create(location, self.schema, self.pk, self.rec)

  def model(self):
    return Model(self.fields, self.pk)

  def table(self, rows):
    return pa.Table.from_pylist([dict(r) for r in rows], schema=self.schema)

  def row(self, *values):
    assert len(values) == len(self.fields)
    return dict(zip(self.fields, values))

  def data(self, rows, form):
    if form == "pydict":
      return {f: [r[f] for r in rows] for f in self.fields}
    if form == "sliced":  # a table with an offset and several chunks
      t = self.table(rows)
      pad = self.table(list(rows[:1]) + list(rows))
      parts = [pad.slice(1, 1), t.slice(1)] if t.num_rows else [t]
      return pa.concat_tables(parts)
    return self.table(rows)

  def show(self, rows):
    return [tuple(r[f] for f in self.fields) for r in rows]


def make_runner(ds, option):
  """The runner an option name stands for: file options of the local runner,
  or "ray<parallelism>[r]:<file options>", on the stub Ray with a first-in or
  (r) last-in-first-out schedule."""
  if not option.startswith("ray"):
    return ds.local(OPTIONS[option])
  from mc import sched  # pylint: disable=import-outside-toplevel
  ray, option = option.split(":")
  if ray.endswith("*"):  # the schedule is set by the caller
    ray = ray[:-1]
  else:
    sched.use(sched.Schedule(last=ray.endswith("r")))
  return ds.ray(RayOptions(max_parallelism=int(ray[3:].rstrip("r"))),
                OPTIONS[option])


def run_op(ds, world, op, runner=None):
  """Run a data operation; returns the JobResult.

  op: (kind, argument, option name[, input form]).
  """
  kind, arg = op[0], op[1]
  form = op[3] if len(op) > 3 else "table"
  r = runner or make_runner(ds, op[2] if len(op) > 2 else "default")
  if kind == "append":
    return r.append(world.data(arg, form))
  if kind == "append_from":
    batches = [world.data(b, form) for b in arg]
    if form == "fns":
      return r.append_from([(lambda t=t: iter([t])) for t in batches])
    return r.append_from(lambda: iter(batches))
  if kind == "insert":
    return r.insert(world.data(arg, form))
  if kind == "upsert":
    return r.upsert(world.data(arg, form))
  if kind == "delete":
    return r.delete(expr.to_arrow(arg, world.types))
  if kind == "load":
    return op[3].load(r)
  raise ValueError(kind)


def show_op(world, op):
  kind, arg = op[0], op[1]
  if kind == "load":
    return [kind, world.show(arg), op[2], op[3].pattern]
  if kind == "append_from":
    a = [world.show(b) for b in arg]
  elif kind in ("append", "insert", "upsert"):
    a = world.show(arg)
  else:
    a = arg
  return [kind, a] + list(op[2:])


def state_of(job_result):
  return job_result.state.name


def bag_of_table(table, fields):
  if table is None:
    return Counter()
  return Counter(freeze_row(r, fields) for r in table.to_pylist())


def read_bag(ds, fields, **kw):
  return bag_of_table(ds.local().read_all(**kw), fields)


def diff_msg(what, got, want):
  extra = list((got - want).elements())[:6]
  missing = list((want - got).elements())[:6]
  return f"{what}: unexpected rows {extra}, missing rows {missing}"


def copy_tree(src, dst):
  shutil.copytree(src, dst)


# The JobResult of the last step.
LAST = []


def step(ds, world, model, op, trace, branch="main", runner=None):
  """One transition: the operation on the implementation and on the model.

  Returns (violations, expected state)."""
  want = model.apply(op, branch)
  LAST.clear()
  try:
    got = run_op(ds, world, op, runner)
    LAST.append(got)
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"raised:{op[0]}:{type(e).__name__}",
                      f"{op[0]} raised {exc_str(e)}; expected {want}",
                      trace)], want
  if state_of(got) != want:
    return [violation(
        f"state:{op[0]}:{state_of(got)}-for-{want}",
        f"{op[0]} returned {state_of(got)} ({got.error_message}), expected "
        f"{want}", trace)], want
  return [], want


def expect_bag(what, fn, want, trace):
  """Compare what `fn` reads with the expected multiset."""
  try:
    got = fn()
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"read-raised:{what}:{type(e).__name__}",
                      f"{what} raised {exc_str(e)}", trace)]
  if got != want:
    return [violation(f"rows:{what}", diff_msg(what, got, want), trace)]
  return []


# ------------------------------------------------------------ layout key


def layout_key(location, snapshot_id=None):
  """Canonical form of the files a snapshot consists of.

  Two datasets with equal keys hold the same manifests listing files with the
  same rows, row groups, column stats and (renamed) record addresses in the
  same order, so that every later operation acts alike on them. Names of files
  are random and are replaced by the order of their first appearance.
  """
  ds = Dataset.load(location)
  snap = ds.storage.snapshot(snapshot_id)
  names, out = {}, []

  def norm(v):
    if isinstance(v, dict):
      return tuple((k, norm(x)) for k, x in v.items())
    if isinstance(v, list):
      return tuple(norm(x) for x in v)
    if isinstance(v, str) and ("_" in v and "/" in v or v in names):
      return names.setdefault(v, f"#{len(names)}")
    return v

  for m in snap.manifest_files.index_manifest_files:
    t = pq.read_table(os.path.join(location, m))
    rows = t.to_pylist()
    out.append("M")
    for r in rows:
      path = next((v for v in r.values() if isinstance(v, str)), None)
      f = pq.ParquetFile(os.path.join(location, path))
      rgs = [f.metadata.row_group(i).num_rows
             for i in range(f.metadata.num_row_groups)]
      out.append((norm(r), rgs, norm(f.read().to_pylist())))
  return repr(out)
