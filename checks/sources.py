"""Inputs that come as several iterators of several batches."""

import itertools

import pyarrow as pa

from mc import driver, harness, history, invariant
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SKIPPED, SUCCEEDED

W = World("sources", [("k", pa.int64()), ("r", pa.binary()), ("v", pa.string())],
          ["k"], ["r"])
# Numbers of rows of the batches that one iterator gives.
SHAPES = ((), (0,), (1,), (1, 2), (0, 1), (2, 0, 1), (1, 0))
FORMS = ("table", "pydict", "sliced")


def batches(lists):
  """Rows of each batch of each iterator, all different."""
  n = itertools.count(10)
  def one():
    k = next(n)
    return W.row(k, b"r%d" % k * (k % 3), f"v{k}")
  return [[[one() for _ in range(size)] for size in shape] for shape in lists]


def task(item):
  option, chunk = item
  out = {"violations": [], "transitions": 0, "states": 0, "traces": 0,
         "counts": {}}
  for i, lists in enumerate(chunk):
    out["violations"] += one(option, lists, i, out)
    if len(out["violations"]) > 3:
      break
  return out


def one(option, lists, i, out):
  d = harness.new_dir("sources")
  ds, model = W.create(d), W.model()
  base = [W.row(k, b"b", "b") for k in (1, 2)]
  v, _ = driver.step(ds, W, model, ("append", base, "default"), [])
  data = batches(lists)
  trace = [option, "row counts of the batches of each iterator",
           [list(s) for s in lists]]
  fns = [(lambda s=s, j=j: (
      W.data(b, FORMS[(i + j + n) % 3]) for n, b in enumerate(s)))
      for j, s in enumerate(data)]
  out["transitions"] += 1
  out["traces"] += 1
  want = model.apply(("append_from", [b for s in data for b in s]))
  try:
    runner = driver.make_runner(ds, option)
    got = driver.state_of(runner.append_from(
        fns[0] if len(fns) == 1 and i % 2 else fns))
  except Exception as e:  # pylint: disable=broad-except
    harness.rm(d)
    return [violation(f"sources-raised:{type(e).__name__}", exc_str(e), trace)]
  if got != want:
    v = [violation("sources-state", f"{got}, expected {want}", trace)]
  v = v or driver.expect_bag("rows of several iterators",
                             lambda: driver.read_bag(ds, W.fields),
                             model.bag(model.rows()), trace)
  v = v or invariant.check_version(ds, W, model.rows(), trace, None,
                                   out["counts"])
  if not v and want == SUCCEEDED:
    got = history.impl_diff(ds, W, 1, 2)
    if got != history.model_diff(model, 1, 2):
      v = [violation("sources-diff", f"{got}", trace)]
  out["states"] += 1
  harness.rm(d)
  return v


def run(report, options, most):
  lists = [x for n in range(1, most + 1)
           for x in itertools.product(SHAPES, repeat=n)]
  items = [(o, lists[i:i + 12]) for o in options
           for i in range(0, len(lists), 12)]
  for r in harness.pmap(task, items):
    report.merge(r)
  report.sample({"sources": str(items[-1][1][-1])})
  report.bounds.append(
      f"append_from of all {len(lists)} lists of 1 to {most} iterators over "
      f"{len(SHAPES)} sequences of batch sizes (also no batch and empty "
      f"batches) for each of {len(options)} options")
