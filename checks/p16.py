"""P16: read options select columns and batches without changing data."""

import itertools
import os
from collections import Counter

import pyarrow as pa
import pyarrow.parquet as pq
from array_record.python import array_record_module as ar

from checks import long, shapes
from mc import driver, expr, harness, history
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import freeze

from space import Dataset

W = World("options", [("r", pa.binary()), ("k", pa.int64()),
                      ("s", pa.struct([("k", pa.string()),
                                       ("l", pa.list_(pa.int64()))])),
                      ("q", pa.binary()), ("v", pa.string())],
          ["k"], ["q", "r"])
PLAIN = World("external", [("v", pa.string()), ("k", pa.int64()),
                           ("s", pa.struct([("k", pa.string())])),
                           ("w", pa.int32())], ["k"])


def row(k, x="a"):
  return W.row(f"r{k}{x}".encode() * (k % 3), k,
               None if k == 3 else {"k": x, "l": list(range(k % 4))},
               f"q{k}{x}".encode(), None if k % 4 == 2 else f"{x}{k}")


def prow(k, x="a"):
  return PLAIN.row(None if k == 2 else x, k, {"k": f"{x}{k}"}, -k)


def rows(*ks, x="a"):
  return [row(k, x) for k in ks]


LAYOUTS = {
    # One file, row groups larger than the default batch.
    "large": [("append", rows(*range(1, 21)), "default")],
    "groups": [("append_from", [rows(1, 2, 3), rows(4), rows(5, 6)], "rg"),
               ("append", rows(7, 8), "ar")],
    "files": [("append_from", [rows(3, 1), rows(2), rows(5, 6, 4)], "filear"),
              ("tag", "t1"), ("delete", ("cmp", "==", "k", 6), "default")],
    "rewritten": [("append_from", [rows(1, 2, 3, 4), rows(5, 6)], "file"),
                  ("branch", "b1"), ("tag", "t1"),
                  ("upsert", rows(2, 7, x="b"), "default"),
                  ("delete", ("isnull", "v"), "rg"),
                  ("checkout", "b1"), ("append", rows(8, 9), "rgar"),
                  ("checkout", "main")],
    "emptied": [("append", rows(1, 2), "default"), ("tag", "t1"),
                ("delete", ("lit", True), "default")],
}
BATCHES = (None, 1, 2, 3, 16, 1000)
FILTERS = (None, ("cmp", ">", "k", 2), ("isnull", "v"),
           ("and", ("cmp", "<", "k", 5), ("not", ("cmp", "==", "k", 2))),
           ("cmp", "==", "k", 99))


class _Records:
  """Resolves addresses by hand."""

  def __init__(self, loc):
    self.loc, self.files = loc, {}

  def __call__(self, a):
    path = next(v for v in a.values() if isinstance(v, str))
    pos = next(v for v in a.values() if isinstance(v, int))
    if path not in self.files:
      reader = ar.ArrayRecordReader(os.path.join(self.loc, path))
      self.files[path] = reader.read_all() if reader.num_records() else []
      reader.close()
    return self.files[path][pos]


def _external(loc):
  """A dataset of external files, their columns in another order."""
  ds, model = PLAIN.create(loc), PLAIN.model()
  d = harness.new_dir("x")
  os.makedirs(d)
  data = [prow(k) for k in range(1, 6)]
  t = PLAIN.table(data).select(["w", "s", "k", "v"])
  pq.write_table(t, f"{d}/a.parquet", row_group_size=2)
  model.apply(("append", data))
  state = ds.local().append_parquet(f"{d}/*").state.name
  op = ("upsert", [prow(9, "b"), prow(2, "b")], "default")
  v, _ = driver.step(ds, PLAIN, model, op, [])
  if state != "SUCCEEDED" or v:
    raise RuntimeError(f"cannot build the external layout: {state} {v}")
  return ds, model, d


def check_read(ds, w, model, sid, kw, resolve, counts, trace, branch="main"):
  want_rows = model.rows(sid, branch)
  f = kw.get("filter_")
  if f is not None:
    want_rows = [r for r in want_rows if expr.evaluate(f, r) is True]
    kw = dict(kw, filter_=expr.to_arrow(f))
  fields = kw.get("fields")
  names = w.fields if fields is None else fields
  limit = kw.get("batch_size")
  want = Counter(tuple(freeze(r[x]) for x in names) for r in want_rows)
  got = Counter()
  given = None if fields is None else list(fields)
  try:
    for t in ds.local().read(**kw):
      if sorted(t.column_names) != sorted(names):
        return [violation("columns", f"{t.column_names} read, expected "
                          f"{names}", trace)]
      if limit is not None and t.num_rows > limit:
        return [violation("batch-size", f"a batch has {t.num_rows} rows",
                          trace)]
      counts["batches"] = counts.get("batches", 0) + 1
      for r in t.to_pylist():
        if kw.get("reference_read"):
          r = {x: resolve(y) if x in w.rec else y for x, y in r.items()}
        got[tuple(freeze(r[x]) for x in names)] += 1
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"read-raised:{type(e).__name__}", exc_str(e), trace)]
  if got != want:
    return [violation("rows", driver.diff_msg("read", got, want), trace)]
  if fields is not None and fields != given:
    return [violation("argument-modified", f"fields {given} became {fields}",
                      trace)]
  counts["reads"] = counts.get("reads", 0) + 1
  return []


def _task(item):
  name, fields_list, batches, filters = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  loc = harness.new_dir("o")
  w, ext = W, None
  if name == "external":
    w = PLAIN
    ds, model, ext = _external(loc)
  else:
    ds, model, _ = history.replay(W, loc, LAYOUTS[name])
  resolve = _Records(loc)
  versions = [(None, None)] + [(s, s) for s in sorted(model.snaps)[-2:]]
  versions += [(n, s) for n, (_, s) in sorted(model.refs.items())]
  for fields, size, filter_, ref, (version, sid) in itertools.product(
      fields_list, batches, filters, (False, True), versions):
    kw = dict(fields=None if fields is None else list(fields),
              batch_size=size, filter_=filter_, reference_read=ref,
              version=version)
    kw = {k: v for k, v in kw.items() if v is not None}
    v = check_read(ds, w, model, sid, kw, resolve, out["counts"],
                   [name, {k: str(v) for k, v in kw.items()}])
    out["transitions"] += 1
    if v:
      out["violations"] += v
      if len(out["violations"]) > 5:
        break
  out["traces"] = out["transitions"]
  out["states"] = len(versions)
  harness.rm(loc)
  if ext:
    harness.rm(ext)
  return out


def run(report, tier):
  items = []
  for name in list(LAYOUTS) + ["external"]:
    names = (PLAIN if name == "external" else W).fields
    subsets = [s for n in range(1, len(names) + 1)
               for s in itertools.combinations(names, n)]
    if tier != "quick":
      # Also in every order of up to three fields.
      subsets += [s for n in (2, 3) for s in itertools.permutations(names, n)
                  if s not in subsets]
    # The order in which fields are listed is varied as well.
    subsets = [None] + [s[::-1] if i % 2 else s for i, s in enumerate(subsets)]
    batches = BATCHES if tier != "quick" else (None, 1, 2, 3)
    filters = FILTERS if tier != "quick" else FILTERS[:4]
    for i in range(0, len(subsets), 4):
      items.append((name, subsets[i:i + 4], batches, filters))
  for r in harness.pmap(_task, items):
    report.merge(r)
  for name in LAYOUTS:
    report.sample({"layout": name, "history": [
        history.show(W, op) for op in LAYOUTS[name]]})
  report.bounds += [
      "6 layouts; all subsets of the fields (two record fields, nested and "
      "plain ones), 4-6 batch sizes, 4-5 filters, values or references, the "
      "current version, the last two snapshots, tags and branches: full "
      "product"]
  long.add(report, tier, long.DATA, ("random_access",))
  shapes.run(report, 33 if tier == "quick" else 60, False)
  report.assumptions += [
      "the order of rows and of columns in the result is not prescribed",
      "fields that do not exist or are listed twice are not read"]
