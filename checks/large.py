"""Versions of many rows: row positions around the sizes at which bitmaps,
batches and Parquet readers change their representation."""

import itertools

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc

from mc import driver, harness
from mc.harness import exc_str, violation

from space import Dataset, RayOptions

SCHEMA = pa.schema([("k", pa.int64()), ("v", pa.int64())])
# Containers of roaring bitmaps hold 65536 positions (and turn from lists into
# bitmaps at 4096 entries), batches of Arrow's readers 131072 rows.
SIZES = {"2^16": (65536 + 3, (0, 65534, 65535, 65536, 65538)),
         "2^17": (131072 + 3, (0, 65536, 131071, 131072, 131074))}


def build(layout, n):
  d = harness.new_dir("large")
  ds = Dataset.create(d, SCHEMA, ["k"], [])
  k = np.arange(n)
  t = pa.table({"k": k, "v": k * 2}, schema=SCHEMA)
  if layout == "one":
    r = ds.local().append(t)
  else:  # row groups that do not end at these sizes
    r = ds.local(driver.OPTIONS["rg"]).append_from(
        lambda: iter([t.slice(0, 1000), t.slice(1000, n // 2), t.slice(
            1000 + n // 2)]))
  assert r.state.name == "SUCCEEDED", r
  return d


def columns(tables):
  """The two columns of some tables, ordered by key."""
  tables = [t.select(["k"] + [c for c in t.column_names if c != "k"])
            for t in tables]
  if not tables:
    return None, None
  t = pa.concat_tables(tables)
  k = t.column("k").to_numpy()
  order = np.argsort(k, kind="stable")
  v = t.column("v").to_numpy()[order] if "v" in t.column_names else None
  return k[order], v


def same(got, want):
  if got is None:
    return len(want) == 0
  return len(got) == len(want) and bool((got == want).all())


def gone_sets(n, edges, pairs=2):
  out = [("edges", s) for m in range(1, pairs + 1)
         for s in itertools.combinations(edges, m)]
  out += [("from", x) for x in edges if x] + [("to", x) for x in edges if x]
  # Bitmaps of both kinds next to each other.
  out += [("every", 2), ("every", 16), ("every", 17), ("range", (3, 4099)),
          ("range", (3, 4100)), ("range", (65530, 65540))]
  return out


def predicate(kind, x):
  k = pc.field("k")
  if kind == "edges":
    return k.isin(list(x)), lambda a: np.isin(a, list(x))
  if kind == "from":
    return k >= x, lambda a: a >= x
  if kind == "to":
    return k < x, lambda a: a < x
  if kind == "range":
    return (k >= x[0]) & (k < x[1]), lambda a: (a >= x[0]) & (a < x[1])
  # Rows chosen by a function of another field.
  return (pc.bit_wise_and(pc.field("v"), pc.scalar(2 * x - 1)) == 0, lambda a:
          ((a * 2) & (2 * x - 1)) == 0)


def diff_task(item):
  """Delete rows at the edges: rows, and diffs in batches of several sizes."""
  layout, n, kind, x, ray = item
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {"large": 1}}
  d = build(layout, n)
  trace = [f"{n} rows", layout, kind, x, "ray" if ray else "local"]
  filter_, gone = predicate(kind, x)
  k = np.arange(n)
  dead = k[gone(k)]
  left = k[~gone(k)]
  ds = Dataset.load(d)

  def bad(sig, msg):
    out["violations"].append(violation(f"large-{sig}", msg, trace))

  try:
    if ray:
      from mc import sched  # pylint: disable=import-outside-toplevel
      sched.use(sched.Schedule())
    runner = ds.ray(RayOptions(max_parallelism=3)) if ray else ds.local()
    state = runner.delete(filter_).state.name
    want = "SUCCEEDED" if len(dead) else "SKIPPED"
    if state != want:
      bad("state", f"delete: {state}, expected {want}")
      return out
    # Ray reads the file once for each batch.
    gk, gv = columns(list(runner.read(batch_size=40000) if ray else
                          runner.read()))
    if not same(gk, left) or len(left) and not same(gv, left * 2):
      bad("rows", f"{0 if gk is None else len(gk)} rows, expected {len(left)}, "
          f"differing in {np.setxor1d([] if gk is None else gk, left)[:5]}")
    for size in (131072 if ray else None, 65536, 50000):
      kw = {} if size is None else {"batch_size": size}
      if len(dead):
        gk, _ = columns([c.data for c in runner.diff(1, 2, **kw)])
        if not same(gk, dead):
          bad("diff", f"diff lists {0 if gk is None else len(gk)} deleted keys,"
              f" expected {len(dead)}, differing in "
              f"{np.setxor1d([] if gk is None else gk, dead)[:5]}")
      gk, gv = columns([c.data for c in runner.diff(0, 1, **kw)])
      if not same(gk, k) or not same(gv, k * 2):
        bad("diff-added", f"diff lists {0 if gk is None else len(gk)} added "
            f"rows, expected {n}")
      out["transitions"] += 2
      # Batches hold each row once.
      batches = list(runner.read(**kw))
      if size and any(t.num_rows > size for t in batches):
        bad("batch-size", f"batch of {max(t.num_rows for t in batches)} rows")
      gk, gv = columns(batches)
      if not same(gk, left) or len(left) and not same(gv, left * 2):
        bad("batches", f"{0 if gk is None else len(gk)} rows read in batches of"
            f" {size}, expected {len(left)}")
      out["transitions"] += 1
    if len(dead):
      # Put some back.
      back = dead[:20]
      t = pa.table({"k": back, "v": back * 3}, schema=SCHEMA)
      state = runner.insert(t).state.name
      ids = ds.storage.metadata.current_snapshot_id
      gk, gv = columns([c.data for c in ds.local().diff(2, ids)])
      if state != "SUCCEEDED" or not same(gk, back) or not same(gv, back * 3):
        bad("insert", f"{state}, diff {gk}")
      out["transitions"] += 1
  except Exception as e:  # pylint: disable=broad-except
    bad(f"raised:{type(e).__name__}", exc_str(e))
  harness.rm(d)
  return out


def run(report, tier, ray):
  items = []
  for name, (n, edges) in SIZES.items():
    for layout in ("one", "groups"):
      sets = gone_sets(n, edges)
      for i, (kind, x) in enumerate(sets):
        if tier == "quick" and (i + (layout == "one") + ray) % 2:
          continue
        items.append((layout, n, kind, x, ray))
  for r in harness.pmap(diff_task, items):
    report.merge(r)
  report.sample({"large": str(items[-1])})
  report.bounds.append(
      f"{len(items)} deletes in datasets of 65539 and 131075 rows: all sets of "
      "1 to 2 rows around 2^16 and 2^17, prefixes, suffixes, ranges and every "
      "2nd to 17th row; rows, batches of 3 sizes and diffs")
