"""P14: insert and upsert keep primary keys unique, all or nothing."""

import itertools
from collections import Counter

import pyarrow as pa

from mc import bfs, driver, harness
from mc.driver import World
from mc.harness import violation
from mc.model import freeze_row

from space import Dataset

# Values close to each other in the order of the type or in their spelling.
KEYS = {
    "bool": (pa.bool_(), [False, True]),
    "int32": (pa.int32(), [-2 ** 31, -1, 1, 2 ** 31 - 1]),
    "int64": (pa.int64(), [2 ** 53, 2 ** 53 + 1, -2 ** 63, 2 ** 63 - 1]),
    "float32": (pa.float32(), [1.0, 1.0 + 2 ** -23, 1.0 - 2 ** -24,
                               float("inf")]),
    "float64": (pa.float64(), [0.1, 0.1 + 2 ** -56, 1e300, 5e-324]),
    "string": (pa.string(), ["", "a", "a ", "A", '"', "a\x00b"]),
    "string2": (pa.string(), ["x" * 200, "x" * 199 + "y", "1", "\u00e9",
                              "e\u0301"]),
    "binary": (pa.binary(), [b"", b"\x00", b"a", b"a\x00", b"\xff"]),
    "binary2": (pa.binary(), [b"y" * 100, b"y" * 99 + b"z", b"61", b"a"]),
}
# What joins or separates the parts of a key in some spelling of it.
SEPARATORS = ",|/-_.:;= \t\n\x00\"'&)(" + "\x1f"
COMPOUND = {
    "int64+string": ([pa.int64(), pa.string()],
                     [(1, "a"), (1, "b"), (2, "a"), (12, ""), (1, "2")]),
    "string+string": ([pa.string(), pa.string()],
                      [("a", "b"), ("ab", ""), ("", "ab"), ("b", "a"),
                       ('a") and (k1 == "b', "b")]),
    "string+string+string": ([pa.string()] * 3,
                             [("a", "", "b"), ("a", "b", ""), ("", "a", "b"),
                              ("None", "a", "b"), ("a", "\\", "b")]),
    "int64+int64": ([pa.int64(), pa.int64()],
                    [(1, 11), (11, 1), (1, -11), (111, 0), (-1, 11)]),
    "bool+int32+float64": ([pa.bool_(), pa.int32(), pa.float64()],
                           [(True, 1, 0.5), (False, 1, 0.5), (True, 0, 0.5),
                            (True, 1, 1.5)]),
    "binary+float32": ([pa.binary(), pa.float32()],
                       [(b"a", 1.0), (b"a", 1.0 + 2 ** -23), (b"", 1.0),
                        (b"a\x00", 1.0)]),
}


for _s in SEPARATORS + "\u00e9":
  COMPOUND[f"separated by {_s!r}"] = (
      [pa.string(), pa.string()], [("x" + _s + "y", "z"), ("x", "y" + _s + "z"),
                                   ("x", "y"), ("x" + _s, "y"),
                                   ("x", _s + "y")])
for _s in ("', '", '", "', " and ", " & ", ") and (", "', b'"):
  COMPOUND[f"separated by {_s!r}"] = (
      [pa.string(), pa.string()], [("x" + _s + "y", "z"), ("x", "y" + _s + "z"),
                                   ("x", "y")])


def world(name):
  if name in KEYS:
    types = [KEYS[name][0]]
  else:
    types = COMPOUND[name][0]
  keys = [f"k{i}" for i in range(len(types))]
  fields = [("v", pa.string())] + list(zip(keys, types)) + [("r", pa.binary())]
  return World(name, fields, keys, ["r"])


def domain(name):
  if name in KEYS:
    return [(x,) for x in KEYS[name][1]]
  return COMPOUND[name][1]


def row(w, key, x):
  return w.row(x, *key, x.encode())


def check(ds, w, model, trace, unique, counts):
  want = model.bag(model.rows())
  v = driver.expect_bag("rows", lambda: driver.read_bag(ds, w.fields), want,
                        trace)
  if v:
    return v
  if unique:
    keys = Counter(freeze_row(r, w.pk) for r in ds.local().read_all().to_pylist()
                  ) if want else Counter()
    if keys and max(keys.values()) > 1:
      return [violation("duplicate-key", f"{keys}", trace)]
  counts["rows"] = counts.get("rows", 0) + sum(want.values())
  return []


def _task(item):
  name, stored, layout, batches = item
  w = world(name)
  dom = domain(name)
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 0,
         "counts": {}}
  src = harness.new_dir("p14")
  ds, model = w.create(src), w.model()
  rows = [row(w, dom[i], "old") for i in stored]
  if not rows:
    ops = []
  elif layout == "one":
    ops = [("append", rows, "default")]
  elif layout == "files":
    ops = [("append_from", [[r] for r in rows], "file")]
  else:
    ops = [("append", [r], "default") for r in rows]
  for op in ops:
    v, _ = driver.step(ds, w, model, op, [name])
    if v:
      out["violations"] += v
      return out
  for batch in batches:
    for kind in ("insert", "upsert"):
      d = harness.new_dir("p14c")
      driver.copy_tree(src, d)
      m = model.copy()
      op = (kind, [row(w, dom[i], f"n{j}") for j, i in enumerate(batch)],
            "file" if len(batch) % 2 else "default")
      trace = [["key type", name], ["stored", [dom[i] for i in stored], layout],
               driver.show_op(w, op)]
      ds = Dataset.load(d)
      v, _ = driver.step(ds, w, m, op, trace)
      out["transitions"] += 1
      v = v or check(Dataset.load(d), w, m, trace, True, out["counts"])
      if not v:
        # The keys written before are found again.
        op = ("insert", [row(w, dom[batch[0]], "again")])
        trace = trace + [driver.show_op(w, op)]
        v, _ = driver.step(ds, w, m, op, trace)
        out["transitions"] += 1
        v = v or check(ds, w, m, trace, True, out["counts"])
      out["violations"] += v
      out["traces"] += 1
      harness.rm(d)
  harness.rm(src)
  return out


def types(report, tier):
  items = []
  for name in list(KEYS) + list(COMPOUND):
    n = len(domain(name))
    batches = [b for k in (1, 2) for b in itertools.product(range(n), repeat=k)]
    if tier == "quick":
      # Both orders of a pair only where it is cheap.
      batches = [b for b in batches if n < 4 or list(b) == sorted(b) or
                 b[0] == n - 1]
    else:
      if "separated" not in name:
        batches += [b for b in itertools.permutations(range(n), 3)]
      batches += [(0, 1, 0)] if n > 1 else []
    for k in range(0, n + 1):
      for stored in itertools.combinations(range(n), k):
        if tier == "quick" and 2 < k < n and n > 4:
          continue
        if "separated" in name and tier == "quick" and k > 1:
          continue
        layouts = ["one", "files", "appends"] if k > 1 else ["one"]
        if tier == "quick" and k > 1:
          layouts = [layouts[sum(stored) % 3]]
        for layout in layouts:
          items.append((name, stored, layout, batches))
  for r in harness.pmap(_task, items):
    report.merge(r)
  report.bump("type_layouts", len(items))
  report.sample({"key": items[-1][0], "stored": items[-1][1],
                 "batches": len(items[-1][3])})
  report.bounds.append(
      f"9 single and {len(COMPOUND)} compound key domains of 2 to 6 close values "
      "(also ones that differ in where their parts are separated); stored key "
      f"sets in 3 layouts; all batches of up to {2 if tier == 'quick' else 3} "
      "keys including repeated ones, by insert and upsert, then a second "
      "insert")


# ----------------------------------------------------------------- sizes


SIZED = {
    "int64": World("sized", [("k", pa.int64()), ("v", pa.string())], ["k"]),
    "int64+string": World("sized2", [("k", pa.int64()), ("v", pa.string()),
                                     ("s", pa.string())], ["s", "k"]),
}


def sized_row(w, i, x):
  return w.row(i, x) if len(w.fields) == 2 else w.row(i // 3, x, "abc"[i % 3])


def _size(item):
  name, n, stored, kind, runner = item
  w = SIZED[name]
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {"big_batches": 1}}
  d = harness.new_dir("p14s")
  ds, m = w.create(d), w.model()
  trace = ["keys " + name, f"{n} rows", f"stored {stored}", runner]
  old = [sized_row(w, i, "old") for i in stored]
  ops = []
  if old:
    ops.append(("append_from", [old[i:i + 40] for i in range(0, len(old), 40)],
                "file"))
  if kind.startswith("repeat"):
    # The same key at two places.
    _, i, j = kind.split()
    keys = list(range(n))
    keys[int(j)] = keys[int(i)]
    for k in ("insert", "upsert"):
      ops.append((k, [sized_row(w, i, "new") for i in keys], runner))
  else:
    ops.append((kind, [sized_row(w, i, "new") for i in range(n)], runner))
  for op in ops:
    v, state = driver.step(ds, w, m, op, trace + [op[0]])
    v = v or check(Dataset.load(d), w, m, trace + [op[0]], True, out["counts"])
    out["violations"] += v
    out["transitions"] += 1
    out["counts"][f"{op[0]}_{state}"] = out["counts"].get(
        f"{op[0]}_{state}", 0) + 1
    if v:
      break
  harness.rm(d)
  return out


def _sized(item):
  return harness.deadline(_size, item, 60, str(item)[:300])


def sizes(report, tier):
  quick = tier == "quick"
  ns = list(range(1, 34)) + [63, 64, 65, 100, 129]
  if not quick:
    ns = list(range(1, 101)) + [127, 128, 129, 200, 255, 256, 257, 400]
  items = []
  for name in SIZED:
    for n in ns:
      if quick and name != "int64" and n % 4 != 1:
        continue
      stored = [(), (n - 1,), (n, n + 1), tuple(range(0, n, 2))]
      for i, s in enumerate(stored):
        for j, kind in enumerate(("insert", "upsert")):
          if quick and (n + i + j) % 2:
            continue
          items.append((name, n, s, kind, "default"))
    n = 12 if quick else 20
    items += [(name, n, (3, n + 1), f"repeat {i} {j}", "default")
              for i in range(n) for j in range(i + 1, n)
              if not quick or name == "int64" or j == n - 1]
  ended = 0
  for r in harness.pmap(_sized, items):
    report.merge(r)
    ended += any(v["sig"] == "no-end" for v in r.get("violations", []))
    if ended > 3:
      break
  report.sample({"size": [str(x)[:100] for x in items[-1]]})
  report.bounds.append(
      f"batches of {len(ns)} sizes from 1 to {ns[-1]} keys by insert and "
      "upsert, next to none, one, other and every second of the keys stored; "
      f"batches of {n} keys with one key at any two places; each within 60 s")


def histories(report, tier):
  """Only inserts, upserts and deletes, in all orders."""
  w = World("unique", [("k", pa.int64()), ("v", pa.string()),
                       ("r", pa.binary())], ["k"], ["r"])
  r = lambda k, x: w.row(k, x, x.encode())
  ops = []
  for i, ks in enumerate([(1,), (2, 1), (3,), (2, 4, 3), (4, 4)]):
    opt = ("default", "file", "rg", "mid")[i % 4]
    ops.append(("insert", [r(k, "i") for k in ks], opt))
    ops.append(("upsert", [r(k, f"u{i}") for k in ks], opt))
  ops += [("delete", ("cmp", "==", "k", 2), "default"),
          ("delete", ("cmp", ">=", "k", 3), "file"),
          ("insert", [], "default"), ("upsert", [], "default")]

  def chk(ds, world, model, op, state, trace, location, out):
    return check(Dataset.load(location), w, model, trace, True, out["counts"])

  depth = 3 if tier == "quick" else 4
  bfs.explore(report, w, lambda m, n: ops, depth, chk)
  report.bounds.append(f"histories of up to {depth} of {len(ops)} inserts, "
                       "upserts and deletes")


def run(report, tier):
  types(report, tier)
  sizes(report, tier)
  histories(report, tier)
  report.assumptions += [
      "null, NaN and signed zero keys are excluded: Arrow compares them in its "
      "own ways", "the input has the types of the schema"]
