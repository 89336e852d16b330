"""P04: filters (and deletes by filters) are exact, pruning is sound."""

import itertools

import pyarrow as pa

from mc import driver, harness
from mc.driver import World
from mc.expr import evaluate, to_arrow
from mc.harness import exc_str, violation
from mc.model import freeze_row

from collections import Counter
from space import Dataset

OPS = ("==", "!=", "<", "<=", ">", ">=")
_CTX = {}


def subsets(values):
  for n in range(1, len(values) + 1):
    yield from itertools.combinations(values, n)


def build(world, files, layout):
  """A dataset holding one file per list of rows (or other layouts)."""
  d = harness.new_dir("f")
  ds = world.create(d)
  if layout == "files":        # all files in one manifest
    r = driver.run_op(ds, world, ("append_from", files, "file"))
    assert r.state.name == "SUCCEEDED"
  elif layout == "manifests":  # one manifest per file
    for f in files:
      driver.run_op(ds, world, ("append", f, "default"))
  elif layout == "groups":     # row groups of one file
    driver.run_op(ds, world, ("append_from", files, "rg"))
  elif layout == "mixed":
    half = len(files) // 2
    driver.run_op(ds, world, ("append_from", files[:half], "file"))
    for f in files[half:half + 3]:
      driver.run_op(ds, world, ("append", f, "default"))
    driver.run_op(ds, world, ("append_from", files[half + 3:], "rg"))
  return d


def _read_task(filters):
  """Evaluate filters on the datasets in _CTX."""
  out = {"violations": [], "transitions": 0, "traces": 0, "counts": {}}
  sigs = set()
  for name, world, d, rows in _CTX["datasets"]:
    ds = Dataset.load(d)
    for e in filters:
      want = Counter(freeze_row(r, world.fields) for r in rows
                     if evaluate(e, r) is True)
      trace = {"dataset": name, "filter": repr(e)}
      try:
        got = driver.read_bag(ds, world.fields,
                              filter_=to_arrow(e, world.types))
      except Exception as ex:  # pylint: disable=broad-except
        out["violations"].append(violation(
            f"filter-raised:{type(ex).__name__}", exc_str(ex), trace))
        continue
      out["transitions"] += 1
      c = out["counts"]
      if 0 < sum(want.values()) < len(rows):
        c["selective_filters"] = c.get("selective_filters", 0) + 1
      if got != want:
        out["violations"].append(violation(
            f"filter:{shape(e)}", driver.diff_msg(f"{e}", got, want), trace))
  return out


def shape(e):
  """Shape of a filter without constants, to group violations."""
  if e[0] in ("and", "or", "not"):
    return f"{e[0]}({','.join(shape(x) for x in e[1:])})"
  return e[0] + (f"[{e[1]}]" if e[0] in ("cmp", "rcmp", "cmpf", "cast", "add")
                 else "")


def _delete_task(filters):
  out = {"violations": [], "transitions": 0, "counts": {}}
  for name, world, d, rows in _CTX["datasets"]:
    for e, opt in filters:
      d2 = harness.new_dir("del")
      driver.copy_tree(d, d2)
      hit = [r for r in rows if evaluate(e, r) is True]
      want = Counter(freeze_row(r, world.fields) for r in rows
                     if evaluate(e, r) is not True)
      trace = {"dataset": name, "delete": repr(e), "option": opt}
      ds = Dataset.load(d2)
      try:
        state = driver.run_op(ds, world, ("delete", e, opt)).state.name
        got = driver.read_bag(ds, world.fields)
      except Exception as ex:  # pylint: disable=broad-except
        out["violations"].append(violation(
            f"delete-raised:{type(ex).__name__}", exc_str(ex), trace))
        harness.rm(d2)
        continue
      out["transitions"] += 1
      if got != want:
        out["violations"].append(violation(
            f"delete:{shape(e)}", driver.diff_msg(f"delete {e}", got, want),
            trace))
      elif state != ("SUCCEEDED" if hit else "SKIPPED"):
        out["violations"].append(violation(
            f"delete-state:{state}", f"{state} with {len(hit)} rows to delete",
            trace))
      harness.rm(d2)
  return out


def chunks(items, n):
  items = list(items)
  size = max(1, (len(items) + n - 1) // n)
  return [items[i:i + size] for i in range(0, len(items), size)]


def check(report, datasets, filters, deletes, bound):
  _CTX["datasets"] = datasets
  filters, deletes = list(filters), list(deletes)
  for r in harness.pmap(_read_task, chunks(filters, 32)):
    report.merge(r)
  for r in harness.pmap(_delete_task, chunks(deletes, 32)):
    report.merge(r)
  report.states += len(datasets)
  report.bump("filters", len(filters))
  report.bump("deletes", len(deletes))
  report.bounds.append(bound)
  for name, _, d, rows in datasets:
    harness.rm(d)
  report.sample({"datasets": [x[0] for x in datasets],
                 "filter": repr(filters[len(filters) // 2])}, limit=12)


def atoms(field, consts, ops=OPS, kind="cmp"):
  for c in consts:
    for op in ops:
      yield ("cmp", op, field, c) if kind == "cmp" else ("rcmp", op, c, field)


def closure(base, extra=()):
  """base, their negations, pairs under and/or, and negated pairs."""
  base = list(base)
  yield from base
  yield from extra
  for a in base:
    yield ("not", a)
    yield ("not", ("not", a))
  for a, b in itertools.product(base, repeat=2):
    yield ("and", a, b)
    yield ("or", a, b)
  for a, b in itertools.combinations(base, 2):
    yield ("not", ("and", a, b))
    yield ("not", ("or", a, b))
    yield ("and", a, ("not", b))
    yield ("or", ("not", a), b)


TYPES = {
    "int64": (pa.int64(), [-2**63, -1, 0, 5, 2**63 - 1]),
    "int32": (pa.int32(), [-2**31, -7, 1, 2**31 - 1]),
    "float64": (pa.float64(), [-1.5, -0.0, 0.1, 1e300]),
    "float32": (pa.float32(), [-2.5, 0.0, 0.5, 3.0]),
    "string": (pa.string(), ["", "a", "ab", "\u00e9"]),
    "binary": (pa.binary(), [b"", b"\x00", b"a", b"\xff\xff"]),
    "bool": (pa.bool_(), [False, True]),
}


def single_key(report, tier):
  """One key field of each type; one file per subset of its values."""
  for name, (type_, values) in TYPES.items():
    domain = values + [None]
    if tier == "quick" and len(domain) > 5:
      domain = domain[:2] + domain[-3:]
    consts = [v for v in domain if v is not None]
    w = World("t", [("n", pa.int64()), ("k", type_)], ["k"],
              types={"k": type_})
    files, n = [], 0
    for s in subsets(domain):
      f = []
      for v in s:
        n += 1
        f.append(w.row(n, v))
      files.append(f)
    rows = [r for f in files for r in f]
    layouts = ("files", "groups") if tier == "quick" else (
        "files", "groups", "manifests", "mixed")
    datasets = [(f"{name}/{l}", w, harness.in_child(build, w, files, l),
                 rows) for l in layouts]
    ops = OPS if name != "bool" else ("==", "!=")
    base = list(atoms("k", consts, ops))
    ones = [c for c in consts if c != 0 or isinstance(c, int)]
    extra = list(atoms("k", consts, ops, "rcmp")) + [
        ("isnull", "k"), ("valid", "k"), ("not", ("isnull", "k")),
        ("isin", "k", ones[:2]), ("not", ("isin", "k", ones[:1])),
        ("lit", True), ("lit", False), ("not", ("lit", True)),
        ("or", ("isnull", "k"), base[0]), ("and", ("valid", "k"), base[-1]),
        ("or", base[1], ("isin", "k", ones[-1:])),
        ("and", ("lit", True), base[2 % len(base)]),
        ("or", ("lit", False), base[3 % len(base)]),
    ]
    pairs = closure(base, extra)
    if tier == "quick":
      few = base[::3] + base[1::5]
      pairs = list(base) + extra + list(closure(few))
    deletes = [(e, "default") for e in base + extra] + [
        (("not", e), "file") for e in base[::2]] + [
        ((c, a, b), "rg") for c in ("and", "or")
        for a, b in itertools.combinations(base[::4], 2)]
    check(report, datasets, pairs, deletes,
          f"{name} key: files with every non-empty subset of "
          f"{len(domain)} values incl. null; all comparisons, negations and "
          "pairs" + (" of a fixed third of them" if tier == "quick" else ""))


def nan_key(report, tier):
  nan = float("nan")
  w = World("nan", [("n", pa.int64()), ("k", pa.float64())], ["k"],
            types={"k": pa.float64()})
  files, n = [], 0
  for s in subsets([nan, None, 0.5, 2.0]):
    f = []
    for v in s:
      n += 1
      f.append(w.row(n, v))
    files.append(f)
  rows = [r for f in files for r in f]
  datasets = [(f"nan/{l}", w, harness.in_child(build, w, files, l),
                 rows)
              for l in ("files", "groups")]
  base = list(atoms("k", [0.5, 1.0, 2.0], ("==", "<", "<=", ">", ">=")))
  filters = base + [(c, a, b) for c in ("and", "or")
                    for a in base for b in base]
  check(report, datasets, filters, [(e, "default") for e in base],
        "float key with NaN: ==, <, <=, >, >= and their pairs")


def long_key(report, tier):
  """Keys too long for column statistics."""
  w = World("long", [("n", pa.int64()), ("k", pa.string())], ["k"],
            types={"k": pa.string()})
  big = ["a" * 5000, "b" * 5000]
  files = [[w.row(1, big[0])], [w.row(2, big[1]), w.row(3, big[0])],
           [w.row(4, None)], [w.row(5, "b")], [w.row(6, big[1]),
                                               w.row(7, None)]]
  rows = [r for f in files for r in f]
  datasets = [(f"long/{l}", w, harness.in_child(build, w, files, l),
                 rows)
              for l in ("files", "groups", "manifests")]
  base = list(atoms("k", big + ["b"]))
  filters = list(closure(base[::2])) + base
  check(report, datasets, filters, [(e, "default") for e in base],
        "string key with values too long for column statistics")


def multi(report, tier):
  """Two key fields and a nullable non-key field, mixed in one filter."""
  w = World("multi", [("s", pa.struct([("x", pa.int64())])), ("a", pa.int64()),
                      ("v", pa.int64()), ("r", pa.binary()),
                      ("b", pa.string())], ["b", "a"], ["r"],
            types={"a": pa.int64(), "v": pa.int64(), "b": pa.string()})
  def row(n, a, b, v):
    return w.row({"x": n}, a, v, b"r%d" % n, b)
  pool = [(1, "x", 1), (2, "y", None), (3, "x", 3), (1, "z", 2), (2, "x", 0)]
  files, n = [], 0
  for s in subsets(pool):
    f = []
    for x in s:
      n += 1
      f.append(row(n, *x))
    files.append(f)
  rows = [r for f in files for r in f]
  layouts = ("files", "mixed") if tier == "quick" else (
      "files", "mixed", "groups", "manifests")
  datasets = [(f"multi/{l}", w, harness.in_child(build, w, files, l),
                 rows) for l in layouts]
  base = [("cmp", op, f, c) for f, cs in
          (("a", [1, 2]), ("b", ["x", "y"]), ("v", [1, 2])) for c in cs
          for op in (OPS if tier != "quick" else ("==", "!=", "<", ">="))]
  special = [
      ("cmpf", op, f, g) for op in OPS
      for f, g in (("a", "v"), ("v", "a"), ("a", "a"))] + [
      ("cast", op, "a", 1.5, pa.float64()) for op in OPS] + [
      ("cast", op, "a", "2", pa.string()) for op in OPS] + [
      ("add", op, f, 1, 3) for op in OPS for f in ("a", "v")] + [
      ("isin", "a", [1, 3]), ("isin", "b", ["x"]), ("isin", "v", [0, 2]),
      ("isnull", "v"), ("valid", "v"), ("isnull", "a")]
  filters = list(closure(base[::2] if tier == "quick" else base, special))
  filters += [(c, a, b) for c in ("and", "or") for a in special[::2]
              for b in base[::3]]
  filters += [("not", (c, a, b)) for c in ("and", "or") for a in special[::3]
              for b in base[::5]]
  # Three atoms in both nestings.
  third = base[::3] if tier != "quick" else base[::7]
  for a, b, c in itertools.combinations(third, 3):
    filters += [("and", a, ("or", b, c)), ("or", a, ("and", b, c)),
                ("not", ("and", a, ("or", b, ("not", c))))]
  deletes = [(e, "default") for e in base + special] + [
      ((c, a, b), "file") for c in ("and", "or")
      for a, b in itertools.combinations(base[::3], 2)]
  check(report, datasets, filters, deletes,
        "compound key after a nested field, nullable non-key field: "
        f"{len(filters)} filters of up to three atoms, files with every "
        "subset of 5 rows")


def run(report, tier):
  single_key(report, tier)
  nan_key(report, tier)
  long_key(report, tier)
  multi(report, tier)
  report.traces = report.transitions
  report.assumptions += [
      "!= (and negated ==) on files holding NaN is excluded: Arrow's own row "
      "group pruning drops those rows",
      "is_in with a zero literal on a float field is excluded: Arrow's own "
      "row group pruning compares it with the -0.0 of the file's statistics",
      "strings and bytes over 4096 bytes next to shorter ones are excluded: "
      "Arrow's Parquet statistics of such columns have a wrong maximum, with "
      "which Arrow itself drops rows",
      "filters outside the enumerated grammar are not covered",
  ]
