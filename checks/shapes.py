"""Numbers of rows and batch sizes: the full product, through all readers."""

from collections import Counter

import pyarrow as pa

from mc import driver, expr, harness
from mc.driver import World
from mc.harness import exc_str, violation

from space import RayOptions

W = World("shapes", [("k", pa.int64()), ("r", pa.binary()), ("v", pa.string())],
          ["k"], ["r"])


def row(k):
  return W.row(k, b"r%d" % k, f"v{k % 5}")


def readers(ds, ray):
  """(name, rows it gives, function of the batch size that returns tables)."""
  f = expr.to_arrow(("cmp", ">", "k", 1), W.types)
  if not ray:
    r = ds.local
    return [
        ("read", "all", lambda n: r().read(batch_size=n, version=1)),
        ("read of references", "left",
         lambda n: r().read(batch_size=n, reference_read=True)),
        ("filtered read", "filtered",
         lambda n: r().read(f, batch_size=n, version=1)),
        ("diff", "all", lambda n: changes(r().diff(0, 1, batch_size=n))),
        ("diff of deletes", "gone",
         lambda n: changes(r().diff(1, 2, batch_size=n)))]
  out = []
  for p, block in ((1, True), (3, True), (2, False)):
    def r(p=p, block=block):
      from mc import sched  # pylint: disable=import-outside-toplevel
      sched.use(sched.Schedule(last=p == 3))
      return ds.ray(RayOptions(max_parallelism=p,
                               enable_row_range_block=block))
    name = f"ray {p} blocks={block} "
    out += [(name + "read", "all",
             lambda n, r=r: r().read(batch_size=n, version=1)),
            (name + "filtered read", "filtered",
             lambda n, r=r: r().read(f, batch_size=n, version=1)),
            (name + "diff", "all",
             lambda n, r=r: changes(r().diff(0, 1, batch_size=n))),
            (name + "diff of deletes", "gone",
             lambda n, r=r: changes(r().diff(1, 2, batch_size=n)))]
  return out


def changes(feed):
  return (c.data for c in feed)


def task(item):
  n, layout, sizes, ray = item
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 0,
         "counts": {"shapes": 1}}
  d = harness.new_dir("shapes")
  ds = W.create(d)
  rows = [row(k) for k in range(n)]
  batches = [rows] if layout == "one" else [rows[i:i + 5]
                                            for i in range(0, n, 5)]
  driver.run_op(ds, W, ("append_from", batches, {
      "one": "default", "groups": "rg", "files": "filear"}[layout]))
  gone = [k for k in range(n) if k % 3 != 1]
  driver.run_op(ds, W, ("delete", ("isin", "k", gone), "default"))
  wants = {"all": range(n), "gone": gone, "filtered": range(2, n),
           "left": range(1, n, 3)}
  for name, what, fn in readers(ds, ray):
    for size in sizes:
      trace = [f"{n} rows", layout, name, f"batch size {size}"]
      keys = Counter()
      try:
        for t in fn(size):
          keys.update(t.column("k").to_pylist())
          if "read" in name and size is not None and t.num_rows > size:
            out["violations"].append(violation(
                "shape-batch-size", f"a batch of {t.num_rows} rows", trace))
            break
      except Exception as e:  # pylint: disable=broad-except
        out["violations"].append(violation(
            f"shape-raised:{type(e).__name__}", exc_str(e), trace))
        break
      if out["violations"]:
        break
      if keys != Counter(wants[what]):
        out["violations"].append(violation(
            "shape-rows", f"{sorted(keys.elements())} read, expected "
            f"{list(wants[what])}", trace))
        break
      out["transitions"] += 1
      out["traces"] += 1
  harness.rm(d)
  return out


def run(report, most, ray):
  items = []
  for n in range(1, most + 1):
    for layout in ("one", "groups", "files"):
      if n <= 5 and layout != "one":
        continue
      items.append((n, layout, [None] + list(range(1, n + 2)), ray))
  for r in harness.pmap(task, items[::-1]):
    report.merge(r)
  report.sample({"shapes": str(items[-1])})
  report.bounds.append(
      f"1 to {most} rows in 3 layouts, all batch sizes up to their number, "
      f"{12 if ray else 5} ways to read them or their changes")
