"""P10: manifests and statistics describe exactly the stored data."""

import itertools
import math

import pyarrow as pa

from checks import long
from mc import bfs, driver, harness, hbfs, history, invariant
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED

from space import Dataset


def check(ds, world, model, branch, op, result, trace, location, counts):
  """The invariant on every head, and the delta reported by the job."""
  v = []
  heads = {model.head(branch), model.current}
  heads |= {s for _, s in model.refs.values()}
  for h in sorted(heads):
    v = v or invariant.check_version(ds, world, model.snaps[h].rows, trace, h,
                                     counts)
  if v:
    return v
  if not history.is_ref(op) and result == SUCCEEDED:
    head = model.head(branch)
    parent = model.snaps[head].parent
    v = invariant.check_delta(invariant.totals(ds, parent), driver.LAST[0],
                              invariant.totals(ds, head), trace)
  fresh = Dataset.load(location)
  v = v or invariant.check_version(
      fresh, world, model.rows(), trace, None, counts)
  return v


def records(report, tier):
  """Record fields around the key, a nested field, a branch."""
  w = World("records", [("r", pa.binary()), ("s", pa.struct([
      ("x", pa.int64()), ("k", pa.string())])), ("k", pa.int64()),
                        ("q", pa.binary())], ["k"], ["r", "q"])

  def r(k, x):
    return w.row(b"r%d%s" % (k, x.encode()), {"x": -k, "k": x}, k,
                 b"" if k == 2 else b"q" * k + x.encode())

  def ops(model, branch, trace):
    x = "abcdefgh"[len(trace)]
    out = [
        ("append_from", [[r(1, x)], [r(4, x), r(2, x)], [r(3, x)]], "file"),
        ("append_from", [[r(2, x)], [r(5, x)]], "filear"),
        ("append", [r(3, x), r(1, x)], "rgar", "sliced"),
        ("upsert", [r(2, x), r(4, x)], "mid"),
        ("insert", [r(6, x)], "default"),
        ("delete", ("cmp", "==", "k", 1), "default"),
        ("delete", ("cmp", ">=", "k", 3), "file"),
        ("delete", ("or", ("cmp", "==", "k", 2), ("cmp", "==", "k", 3)), "rg"),
        ("delete", ("lit", True), "default"),
    ]
    if branch == "main":
      if "b1" not in model.refs:
        out.append(("branch", "b1"))
    if "b1" in model.refs:
      out.append(("checkout", "b1" if branch == "main" else "main"))
    return out

  depth = 3 if tier == "quick" else 4
  hbfs.explore(report, w, ops, depth, check)
  report.bounds.append(f"records: histories of up to {depth} of 11 actions")


def plain(report, tier):
  """Many files per manifest, several manifests."""
  w = World("plain", [("v", pa.string()), ("k", pa.int64())], ["k"])
  r = lambda k, x: w.row(x, k)
  def ops(model, branch, trace):
    x = "abcdefgh"[len(trace)]
    out = [
        ("append_from", [[r(1, x)], [r(3, x)], [r(2, x), r(4, x)]], "file"),
        ("append", [r(k, x) for k in (5, 1, 3)], "default"),
        ("upsert", [r(3, x)], "default"),
        ("upsert", [r(2, x), r(6, x)], "file"),
        ("delete", ("cmp", "==", "v", x), "file"),
    ]
    for k in (1, 2, 3, 4):
      out.append(("delete", ("cmp", "==", "k", k),
                  "file" if k % 2 else "default"))
    out.append(("delete", ("cmp", ">", "k", 2), "rg"))
    return out
  depth = 3 if tier == "quick" else 5
  hbfs.explore(report, w, ops, depth, check)
  report.bounds.append(f"plain: histories of up to {depth} of 10 actions")


# ------------------------------------------------------------------- types

INF, NAN = math.inf, math.nan
BIG = 2 ** 63
DOMAINS = [
    ("bool", pa.bool_(), [False, True, None]),
    ("int32", pa.int32(), [-2 ** 31, -1, 0, 2 ** 31 - 1, None]),
    ("int64", pa.int64(), [-BIG, -1, 7, BIG - 1, None]),
    ("float32", pa.float32(), [-INF, -1.5, 0.0, 3.4028234663852886e38, NAN,
                               None]),
    ("float64", pa.float64(), [-INF, -0.0, 5e-324, 1.7976931348623157e308, NAN,
                               None]),
    ("string", pa.string(), ["", "a", "ab", "b\u00e9\U0001f600", "\u007f",
                             None]),
    ("binary", pa.binary(), [b"", b"\x00", b"a", b"\x7f\xff", b"\xff\x00",
                             None]),
]


def type_world(name, type_):
  """The key is surrounded by nested fields holding columns of similar type."""
  return World(name, [("n", pa.struct([("k", type_), ("m", pa.int64())])),
                      ("k", type_), ("l", pa.list_(type_)),
                      ("j", type_), ("r", pa.binary())], ["j", "k"], ["r"])


def _type_task(item):
  name, groups, how = item
  type_, dom = {n: (t, d) for n, t, d in DOMAINS}[name]
  w = type_world(name, type_)
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 0,
         "counts": {}}
  other = dom[1]
  def r(i):
    v = dom[i]
    return w.row({"k": other, "m": i}, v, [other, v], dom[(i + 2) % len(dom)],
                 b"r" * i)
  d = harness.new_dir("t10")
  w.create(d)
  model = w.model()
  batches = [[r(i) for i in g] for g in groups]
  ops = [("append_from", batches, how)]
  # Rewrites: delete by each half of the row ordinals.
  for m in (0, 1):
    ops.append(("upsert", [r(i) for i in groups[m % len(groups)][:1]], how))
  ops = ops[:2] if all(v is not None and v == v for v in (
      dom[groups[0][0]], dom[(groups[0][0] + 2) % len(dom)])) else ops[:1]
  trace = [["type", name], how]
  for op in ops:
    trace = trace + [driver.show_op(w, op)]
    ds = Dataset.load(d)
    state, deleted, added = model.effect(op)
    if state != SUCCEEDED:
      break
    try:
      before = invariant.totals(ds, None)
      res = driver.run_op(ds, w, op)
    except Exception as e:  # pylint: disable=broad-except
      out["violations"].append(violation(f"raised:{op[0]}:{name}", exc_str(e),
                                         trace))
      break
    model.commit(deleted, added)
    out["transitions"] += 1
    v = []
    if driver.state_of(res) != SUCCEEDED:
      v = [violation(f"state:{op[0]}", f"{res.state} {res.error_message}",
                     trace)]
    v = v or invariant.check_version(ds, w, model.rows(), trace, None,
                                     out["counts"])
    v = v or invariant.check_delta(before, res, invariant.totals(ds, None),
                                   trace)
    if v:
      out["violations"] += v
      break
  out["traces"] = out["transitions"]
  harness.rm(d)
  return out


def types(report, tier):
  items = []
  for name, _, dom in DOMAINS:
    n = len(dom)
    gs = [g for k in (1, 2) for g in itertools.combinations(range(n), k)]
    gs += [(1, 0), (2, 1)] if n > 2 else [(1, 0)]
    for a in gs:
      items.append((name, (a,), "default"))
      for b in gs:
        if tier == "quick" and len(a) + len(b) > 3:
          continue
        items.append((name, (a, b), "rg"))
        if tier != "quick":
          items.append((name, (a, b), "file"))
    if tier != "quick":
      for a, b, c in itertools.product(range(n), repeat=3):
        items.append((name, ((a,), (b,), (c,)), "rg"))
  for r in harness.pmap(_type_task, items, chunksize=8):
    report.merge(r)
  report.bump("type_layouts", len(items))
  report.bounds.append(
      "7 key types, compound keys next to nested fields; all pairs of row "
      "groups of 1 to 2 values of the domains (null, NaN, infinite, extreme, "
      "empty, non-ASCII)")


def run(report, tier):
  for f in (records, plain, types):
    f(report, tier)
  long.add(report, tier, long.DATA, ("invariant",))
  report.assumptions += [
      "strings longer than 4096 bytes are excluded: Arrow 16 itself drops or "
      "truncates their Parquet statistics",
      "record file byte counts are checked up to the in-memory overhead "
      "(offsets) of their columns"]
