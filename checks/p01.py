"""P01: every history of mutations reads as the reference model says."""

import pyarrow as pa

from checks import long, sources
from mc import bfs, driver
from mc.driver import World

from space import Dataset


def check(ds, world, model, op, state, trace, location, out):
  """The current version, through this handle and through a fresh one."""
  want = model.bag(model.rows())
  v = driver.expect_bag("read_all", lambda: driver.read_bag(ds, world.fields),
                        want, trace)
  if not v:
    v = driver.expect_bag(
        "read_all after reopening",
        lambda: driver.read_bag(Dataset.load(location), world.fields), want,
        trace)
  if not v:
    n = out["counts"]
    n["rows_compared"] = n.get("rows_compared", 0) + sum(want.values())
  return v


def kv(report, tier):
  w = World("kv", [("k", pa.int64()), ("v", pa.string())], ["k"])
  a, b = "a", "b"
  r = w.row
  ops = [
      ("append", [r(1, a)], "default", "pydict"),
      ("append", [r(2, a), r(1, b)], "rg"),
      ("append", [], "default"),
      ("append_from", [[r(1, a)], [r(2, b), r(3, a)]], "file"),
      ("append_from", [[r(2, a)], [], [r(3, b)]], "rg"),
      ("insert", [r(3, a)], "default"),
      ("insert", [r(2, b), r(4, b)], "file", "sliced"),
      ("insert", [r(5, a), r(5, b)], "default"),
      ("upsert", [r(1, b)], "default"),
      ("upsert", [r(2, a), r(4, a)], "file"),
      ("delete", ("cmp", "==", "k", 1), "default"),
      ("delete", ("cmp", "==", "v", a), "file"),
      ("delete", ("cmp", ">=", "k", 2), "rg"),
      ("delete", ("or", ("cmp", "==", "k", 1), ("cmp", "==", "v", b)), "mid"),
      ("delete", ("cmp", ">", "k", 100), "default"),
  ]
  bfs.explore(report, w, lambda m, n: ops, 4 if tier == "quick" else 5, check)
  report.bounds.append(
      f"kv: {len(ops)} operations, depth {4 if tier == "quick" else 5}")


def files(report, tier):
  """Several files per manifest and several manifests, then deletes."""
  w = World("files", [("k", pa.int64()), ("v", pa.string())], ["k"])
  r = w.row
  roots = [
      [("append_from", [[r(1, "a")], [r(2, "a")], [r(3, "b")]], "file")],
      [("append_from", [[r(1, "a"), r(2, "b")], [r(2, "a"), r(4, "b")]],
        "file"), ("append_from", [[r(3, "a")], [r(1, "b")]], "rg")],
      [("append", [r(i, "ab"[i % 2]) for i in range(1, 6)], "default"),
       ("append_from", [[r(1, "b")], [r(5, "a")]], "file")],
  ]
  ops = [
      ("append_from", [[r(2, "c")], [r(4, "c")]], "file"),
      ("upsert", [r(2, "d"), r(3, "d")], "file"),
      ("upsert", [r(1, "e")], "rg"),
  ]
  for k in (1, 2, 3, 4):
    ops.append(("delete", ("cmp", "==", "k", k), "default"))
  ops += [
      ("delete", ("cmp", "==", "v", "a"), "file"),
      ("delete", ("cmp", "==", "v", "b"), "default"),
      ("delete", ("and", ("cmp", ">", "k", 1), ("cmp", "<", "k", 4)), "mid"),
      ("delete", ("lit", True), "default"),
      ("delete", ("cmp", "<=", "k", 2), "file"),
  ]
  depth = 3 if tier == "quick" else 4
  bfs.explore(report, w, lambda m, n: ops, depth, check, roots=roots)
  report.bounds.append(
      f"files: {len(ops)} operations, depth {depth} from {len(roots)} roots")


def records(report, tier):
  """A record field between two index fields, nested field, nulls."""
  w = World("records", [("r", pa.binary()), ("k", pa.int64()),
                        ("s", pa.struct([("x", pa.int64()),
                                         ("y", pa.list_(pa.string()))])),
                        ("q", pa.binary())], ["k"], ["r", "q"])
  def r(k, x):
    return w.row(b"r%d%s" % (k, x.encode()), k,
                 {"x": k, "y": [x] * (k % 3)}, b"" if k == 2 else b"q" + x.encode())
  ops = [
      ("append", [r(1, "a")], "default", "pydict"),
      ("append", [r(2, "a"), r(1, "b")], "ar"),
      ("append_from", [[r(1, "c")], [r(2, "c"), r(3, "c")], [r(4, "c")]],
       "filear"),
      ("append_from", [[r(3, "d")], [r(2, "d")]], "mid"),
      ("insert", [r(3, "e"), r(5, "e")], "rgar"),
      ("upsert", [r(2, "f"), r(1, "f")], "ar", "sliced"),
      ("upsert", [r(3, "g")], "default"),
      ("delete", ("cmp", "==", "k", 1), "default"),
      ("delete", ("cmp", ">", "k", 1), "file"),
      ("delete", ("cmp", "<", "k", 3), "rg"),
  ]
  depth = 3 if tier == "quick" else 4
  bfs.explore(report, w, lambda m, n: ops, depth, check)
  report.bounds.append(f"records: {len(ops)} operations, depth {depth}")


def compound(report, tier):
  """Compound primary key over an int and a nullable string field."""
  w = World("compound", [("a", pa.int32()), ("v", pa.float64()),
                         ("b", pa.string())], ["a", "b"])
  r = w.row
  ops = [
      ("append", [r(1, 0.5, "x"), r(1, None, "y")], "default"),
      ("append_from", [[r(2, -1.5, "x")], [r(1, 2.0, "z")]], "file"),
      ("insert", [r(1, 1.0, "x"), r(2, 1.0, "y")], "rg"),
      ("insert", [r(1, 4.0, "zz")], "default"),
      ("upsert", [r(1, 3.0, "y"), r(2, 3.0, "x")], "file"),
      ("upsert", [r(2, None, "z")], "default"),
      ("delete", ("and", ("cmp", "==", "a", 1), ("cmp", "==", "b", "x")),
       "default"),
      ("delete", ("cmp", ">", "v", 0.0), "file"),
      ("delete", ("cmp", "<=", "v", 1.0), "default"),
      ("delete", ("isnull", "v"), "rg"),
      ("delete", ("or", ("cmp", "==", "b", "y"), ("cmp", "==", "a", 2)),
       "default"),
  ]
  depth = 3 if tier == "quick" else 4
  bfs.explore(report, w, lambda m, n: ops, depth, check)
  report.bounds.append(f"compound: {len(ops)} operations, depth {depth}")


def run(report, tier):
  for f in (kv, files, records, compound):
    f(report, tier)
  sources.run(report, ("default", "mid") if tier == "quick" else (
      "default", "file", "filear", "mid"), 3)
  long.add(report, tier, long.DATA, ())
  report.assumptions += [
      "single process, no concurrent writer (see P07, P08)",
      "row values outside the alphabets listed in bounds are not covered",
  ]
