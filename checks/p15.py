"""P15: loading external files is appending their contents, without copying."""

import hashlib
import os
import struct

import pyarrow as pa
import pyarrow.parquet as pq
from array_record.python import array_record_module as ar

from mc import driver, expr, harness, hbfs, history, invariant
from mc.driver import OPTIONS, World
from mc.harness import exc_str, violation
from mc.model import SKIPPED, SUCCEEDED, freeze_row

from space import Dataset, RandomAccessDataSource

EXT = []  # the directory of the external files
PRINT = {}  # path -> fingerprint


class Load:
  """A pattern, the working directory it is relative to, and its effect."""

  def __init__(self, pattern, index_fn=None, record_bytes=None):
    self.pattern, self.index_fn = pattern, index_fn
    self.record_bytes = record_bytes

  def load(self, runner):
    cwd = os.getcwd()
    os.chdir(EXT[0])
    try:
      p = self.pattern.replace("$EXT", EXT[0])
      if self.index_fn is not None:
        return runner.append_array_record(p, self.index_fn)
      return runner.append_parquet(p)
    finally:
      os.chdir(cwd)


def fingerprint(path):
  st = os.stat(path)
  with open(path, "rb") as f:
    return (hashlib.md5(f.read()).hexdigest(), st.st_mtime_ns, st.st_ino,
            st.st_mode)


def remember_files():
  PRINT.clear()
  for d, _, files in os.walk(EXT[0]):
    PRINT[d] = sorted(os.listdir(d))
    for f in files:
      PRINT[os.path.join(d, f)] = fingerprint(os.path.join(d, f))


def check_files(trace):
  for p, want in PRINT.items():
    got = (None if not os.path.exists(p) else sorted(os.listdir(p))
           if os.path.isdir(p) else fingerprint(p))
    if got != want:
      return [violation("external-modified", f"{p}: was {want}, is {got}",
                        trace)]
  return []


FILTERS = []


def check(ds, world, model, branch, op, result, trace, location, counts):
  fresh = Dataset.load(location)
  v = history.check_all_versions(fresh, world, model, trace)
  v = v or history.check_diffs(fresh, world, model, trace, counts)
  for sid in sorted(model.snaps):
    if sid >= model.max_id - 1:
      v = v or invariant.check_version(fresh, world, model.snaps[sid].rows,
                                       trace, sid, counts, external=True)
  if not history.is_ref(op) and result == SUCCEEDED and not v:
    head = model.head(branch)
    v = invariant.check_delta(
        invariant.totals(ds, model.snaps[head].parent), driver.LAST[0],
        invariant.totals(ds, head), trace)
    stats = driver.LAST[0].storage_statistics_update
    if not v and op[0] == "load" and op[3].record_bytes is not None and (
        stats.record_uncompressed_bytes != op[3].record_bytes):
      v = [violation("load-record-bytes", f"{stats}, the loaded records have "
                     f"{op[3].record_bytes} bytes", trace)]
  for f in _filters(world):
    if v:
      break
    want = [r for r in model.rows(branch=branch)
            if expr.evaluate(f, r) is True]
    v = driver.expect_bag(
        "filtered read", lambda: driver.read_bag(
            fresh, world.fields, filter_=expr.to_arrow(f)), model.bag(want),
        trace + [["filter", f]])
  v = v or driver.expect_bag(
      "read in batches",
      lambda: driver.read_bag(fresh, world.fields, batch_size=2),
      model.bag(model.rows(branch=branch)), trace)
  if world.rec and model.rows(branch=branch) and not v:
    v = check_random_access(fresh, world, model.rows(branch=branch), trace)
  return v or check_files(trace)


def check_random_access(ds, world, rows, trace):
  """Multiset of records by random access (order of rows is not prescribed)."""
  f = world.rec[0]
  def got():
    src = RandomAccessDataSource({f: ds.storage.location},
                                 deserialize=False)
    return sorted(bytes(src[i]) for i in range(len(src)))
  try:
    g = got()
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"random-access-raised:{type(e).__name__}",
                      harness.exc_str(e), trace)]
  want = sorted(r[f] for r in rows)
  if g != want:
    return [violation("random-access", f"{g} != {want}", trace)]
  return []


def _filters(world):
  return [("cmp", "==", "k", 2), ("cmp", ">", "k", 3),
          ("or", ("isnull", "v"), ("cmp", "<", "k", 2)),
          ("and", ("cmp", ">=", "k", 2), ("cmp", "<=", "v", "e4"))]


# ------------------------------------------------------------------ parquet

PW = World("parquet", [("s", pa.struct([("k", pa.int64())])),
                       ("v", pa.string()), ("k", pa.int64())], ["k"])


def prow(k, x, null=False):
  return PW.row({"k": -(k or 0)}, None if null else f"{x}{k}", k)


# File -> (rows, layout).
PFILES = {
    "one/a.parquet": ([prow(1, "e"), prow(2, "e")], {}),
    # Several row groups, columns in another order, an extra column and
    # field IDs assigned by another system.
    "many/b.parquet": ([prow(3, "e"), prow(None, "e"), prow(4, "e", True)],
                       dict(groups=1, order=["k", "x", "v", "s"],
                            ids={"k": 8, "v": 0, "s": 77, "x": 2})),
    # No statistics, other encodings.
    "many/c.parquet": ([prow(2, "f"), prow(5, "f")],
                       dict(groups=1, order=["v", "s", "k"],
                            write=dict(write_statistics=False,
                                       use_dictionary=False,
                                       data_page_version="2.0",
                                       compression="gzip"))),
    "many/d.parquet": ([], {}),
    "many/e.parquet": ([prow(6, "g"), prow(3, "g", True), prow(6, "h")],
                       dict(groups=2, order=["v", "k", "s"])),
    "many/ignored.txt": (None, {}),
    "none/x.parquet": ([], {}),
    "in dir=1/k=9/f.parquet": ([prow(2, "i"), prow(7, "i")], {}),
}


def write_parquet(path, rows, groups=None, order=None, ids=None, write=None):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  if rows is None:
    with open(path, "w", encoding="utf-8") as f:
      f.write("not a Parquet file")
    return
  t = PW.table(rows)
  if order and "x" in order:
    t = t.append_column("x", pa.array(["x"] * t.num_rows))
  if order:
    t = t.select(order)
  if ids:
    t = t.cast(pa.schema([
        pa.field(f.name, f.type,
                 metadata={b"PARQUET:field_id": str(ids[f.name]).encode()})
        for f in t.schema]))
  pq.write_table(t, path, row_group_size=groups or 100, **(write or {}))


def contents(files, prefix, suffix):
  return [r for f, (rows, *_) in sorted(files.items())
          if f.startswith(prefix) and f.endswith(suffix) for r in rows]


def make_parquet():
  for f, (rows, kw) in PFILES.items():
    write_parquet(os.path.join(EXT[0], f), rows, **kw)


def parquet(report, tier):
  harness.in_child(make_parquet)
  remember_files()
  loads = [
      ("load", contents(PFILES, "one/", ""), "default",
       Load("$EXT/one/a.parquet")),
      ("load", contents(PFILES, "many/", ".parquet"), "default",
       Load("many/*.parquet")),
      ("load", contents(PFILES, "in dir=1/", ""), "default",
       Load("./in dir=1/*/?.parquet")),
      ("load", [], "default", Load("$EXT/none/*.parquet")),
      ("load", [], "default", Load("$EXT/no_such_dir/*.parquet")),
  ]
  def ops(model, branch, trace):
    x = "abcdefgh"[len(trace)]
    out = list(loads)
    out += [
        ("append_from", [[prow(2, x)], [prow(8, x, True)]], "file"),
        ("upsert", [prow(2, x), prow(9, x)], "default"),
        ("insert", [prow(6, x)], "default"),
        ("delete", ("cmp", "==", "k", 2), "default"),
        ("delete", ("cmp", "==", "k", 3), "file"),
        ("delete", ("or", ("isnull", "k"), ("cmp", ">", "v", "f")), "rg"),
        ("delete", ("lit", True), "default"),
    ]
    return out
  depth = 3 if tier == "quick" else 4
  hbfs.explore(report, PW, ops, depth, check)
  report.bounds.append(
      f"parquet: all histories of up to {depth} of 5 loads (single file, "
      "relative and nested patterns over 4 file layouts, empty) and 7 "
      "mutations")


# ------------------------------------------------------------- array record

RW = World("array_record", [("r", pa.binary()), ("k", pa.int64()),
                            ("v", pa.string())], ["k"], ["r"])


def rrow(k, x, pad=0, null=False):
  return RW.row(struct.pack("<q", k) + (b"!" if null else b"") + x.encode() +
                b"z" * pad, k, None if null else f"{x}{k}")


def index_fn(record):
  (b,) = record["r"]
  k = struct.unpack("<q", b[:8])[0]
  if b[8:9] == b"!":
    return {"k": k}
  return {"v": f"{b[8:9].decode()}{k}", "k": k}


def index_fn_full(record):
  """Also returns what it was given and something that is no field."""
  r = index_fn(record)
  r.setdefault("v", None)
  r["extra"] = 1
  return r


RFILES = {
    "ra/a.rec": ([rrow(1, "e"), rrow(2, "e", 9)], "group_size:1"),
    "rb/b.rec": ([rrow(3, "e"), rrow(4, "f", 0, True), rrow(2, "f", 3)],
                 "group_size:2"),
    "rb/c.rec": ([], ""),
    "rb/d.rec": ([rrow(6, "g", 40)], ""),
    "rc/x.rec": ([], ""),
}


def write_records(path, rows, options):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  w = ar.ArrayRecordWriter(path, options=options)
  for r in rows:
    w.write(r["r"])
  w.close()


def make_records():
  for f, (rows, opt) in RFILES.items():
    write_records(os.path.join(EXT[0], f), rows, opt)


def array_record(report, tier):
  harness.in_child(make_records)
  remember_files()
  def load(prefix, suffix, option, pattern, fn):
    rows = contents(RFILES, prefix, suffix)
    return ("load", rows, option,
            Load(pattern, fn, sum(len(r["r"]) for r in rows)))
  loads = [
      load("ra/", "", "rg", "$EXT/ra/*", index_fn),
      load("rb/", "", "file", "rb/*.rec", index_fn_full),
      load("rb/", "", "default", "./rb/?.rec", index_fn),
      load("rc/", "", "default", "rc/*", index_fn),
      load("zz/", "", "default", "zz/*", index_fn),
  ]
  def ops(model, branch, trace):
    x = "abcdefgh"[len(trace)]
    out = list(loads)
    out += [
        ("append_from", [[rrow(2, x)], [rrow(8, x, 5)]], "filear"),
        ("upsert", [rrow(2, x), rrow(9, x)], "default"),
        ("delete", ("cmp", "==", "k", 2), "default"),
        ("delete", ("or", ("cmp", ">", "k", 3), ("isnull", "v")), "file"),
        ("delete", ("lit", True), "default"),
    ]
    return out
  depth = 3 if tier == "quick" else 4
  hbfs.explore(report, RW, ops, depth, check)
  report.bounds.append(
      f"array_record: all histories of up to {depth} of 5 loads (patterns, "
      "file options, empty files) and 5 mutations")


# -------------------------------------------------------------- TfFeatures


def tf_features(_):
  """Serialized record fields, index built from deserialized records."""
  import numpy as np  # pylint: disable=import-outside-toplevel
  from tensorflow_datasets import features as f  # pylint: disable=import-outside-toplevel
  from space import TfFeatures  # pylint: disable=import-outside-toplevel
  type_ = TfFeatures(f.FeaturesDict({"id": np.int64,
                                     "xs": f.Sequence(np.int64)}))
  values = [{"id": i, "xs": np.arange(i)} for i in range(4)]
  raw = [type_.serialize(x) for x in values]
  # Empty file, one record, all: the files of a load and what remains of it.
  out = {"violations": [], "transitions": 0, "traces": 0}
  sets = [((),), ((0,),), ((1, 2), (3,)), ((3,), (), (2, 0))]
  w = World("tf", [("id", pa.int64()), ("n", pa.int64()), ("r", type_)],
            ["id"], ["r"])
  def fn(record):
    (x,) = record["r"]
    return {"id": int(x["id"]), "n": len(x["xs"])}
  for i, files in enumerate(sets):
    d = os.path.join(EXT[0], f"tf{i}")
    os.makedirs(d)
    ids = []
    for j, idx in enumerate(files):
      wr = ar.ArrayRecordWriter(os.path.join(d, f"{j}.rec"), options="")
      for k in idx:
        wr.write(raw[k])
      wr.close()
      ids += idx
    loc = harness.new_dir("tf")
    ds = w.create(loc)
    trace = [["load", [list(x) for x in files]]]
    try:
      res = ds.local().append_array_record(f"{d}/*", fn)
      state = res.state.name
      got = [] if not ids else ds.local().read_all().to_pydict()
      rows = [] if not ids else sorted(
          (a, b, c if isinstance(c, bytes) else type_.serialize(c))
          for a, b, c in zip(got["id"], got["n"], got["r"]))
    except Exception as e:  # pylint: disable=broad-except
      out["violations"].append(
          violation("tf-raised", harness.exc_str(e), trace))
      continue
    want = sorted((k, k, raw[k]) for k in ids)
    if state != (SUCCEEDED if ids else SKIPPED) or rows != want:
      out["violations"].append(violation(
          "tf", f"{state} {rows}, expected {want}", trace))
    out["transitions"] += 1
    harness.rm(loc)
  return out


def _many_task(item):
  """Many external files or row groups, then changes of some of them."""
  kind, n, groups, opt = item
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {}}
  d = harness.new_dir("many")
  src = harness.new_dir("manysrc")
  w = PW if kind == "parquet" else RW
  trace = [list(item)]
  rows, model = [], w.model()
  if kind == "parquet":
    for i in range(n):
      mine = [prow(3 * i + j, "m") for j in range(i % 3 + 1)]
      write_parquet(f"{src}/f{i}.parquet", mine, groups)
      rows += mine
    load = lambda ds: ds.local(OPTIONS[opt]).append_parquet(f"{src}/f*.parquet")
  else:
    for i in range(n):
      mine = [rrow(3 * i + j, "m") for j in range(i % 3 + 1)]
      write_records(f"{src}/f{i}.rec", mine, "group_size:1")
      rows += mine
    load = lambda ds: ds.local(OPTIONS[opt]).append_array_record(
        f"{src}/*.rec", index_fn)
  before = {f: fingerprint(f"{src}/{f}") for f in sorted(os.listdir(src))}
  ds = w.create(d)
  make = prow if kind == "parquet" else rrow
  ops = [("upsert", [make(4, "u"), make(1000, "u")], "file"),
         ("delete", ("cmp", "<", "k", 3 * (n // 2)), "default"),
         ("append", [make(1001, "u")], "default"),
         ("delete", ("cmp", ">", "k", 1), opt)]
  try:
    state = load(ds).state.name
  except Exception as e:  # pylint: disable=broad-except
    state = exc_str(e)
  model.apply(("append", rows, opt))
  v = [] if state == "SUCCEEDED" else [violation("many-load", state, trace)]
  v = v or driver.expect_bag(
      "rows of many external files", lambda: driver.read_bag(ds, w.fields),
      model.bag(model.rows()), trace)
  for op in ops:
    if v:
      break
    trace = trace + [driver.show_op(w, op)]
    v, _ = driver.step(ds, w, model, op, trace)
    out["transitions"] += 1
    v = v or driver.expect_bag(
        "rows of many external files", lambda: driver.read_bag(
            Dataset.load(d), w.fields), model.bag(model.rows()), trace)
    v = v or invariant.check_version(Dataset.load(d), w, model.rows(), trace,
                                     None, out["counts"], external=True)
  v = v or history.check_diffs(ds, w, model, trace, out["counts"])
  if not v and before != {f: fingerprint(f"{src}/{f}")
                          for f in sorted(os.listdir(src))}:
    v = [violation("external-changed", "external files changed", trace)]
  out["violations"] = v
  harness.rm(d)
  harness.rm(src)
  return out


def many(report, tier):
  quick = tier == "quick"
  items = [(kind, n, g, opt) for kind in ("parquet", "records")
           for n in ((2, 7, 11, 26) if quick else (*range(2, 30), 101))
           for g, opt in ((None, "default"), (1, "file"), (2, "rg"))
           if not (quick and kind == "records" and g == 2)]
  for r in harness.pmap(_many_task, items):
    report.merge(r)
  report.bounds.append(f"{len(items)} loads of 2 to {items[-1][1]} files")


def run(report, tier):
  EXT[:] = [os.path.join(harness.scratch_root(), "external")]
  os.makedirs(EXT[0])
  parquet(report, tier)
  array_record(report, tier)
  many(report, tier)
  for r in harness.pmap(tf_features, [None]):
    report.merge(r)
  report.bounds.append("TfFeatures records: 4 sets of files")
  report.traces = report.transitions
  report.assumptions += [
      "external Parquet files have the dataset's field names and types; "
      "further columns are ignored"]
