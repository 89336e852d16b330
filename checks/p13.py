"""P13: random access shows each live record exactly once."""

import itertools
from collections import Counter

import pyarrow as pa

from mc import driver, expr, harness
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED

from space import Dataset, TfFeatures
from space.core.random_access import RandomAccessDataSource
from space.core.utils import errors

_CTX = {}


def tff():
  from tensorflow_datasets import features as f  # pylint: disable=g-import-not-at-top
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  return TfFeatures(f.FeaturesDict({"x": f.Scalar(tf.int64)}))


class W13(World):

  def __init__(self):
    super().__init__("ra", [("t", tff()), ("k", pa.int64()),
                            ("f", pa.binary())], ["k"], ["f", "t"])
    self.plain = pa.schema([("t", pa.binary()), ("k", pa.int64()),
                            ("f", pa.binary())])
    self.ser = self.schema.field("t").type

  def table(self, rows):
    return pa.Table.from_pylist([dict(r) for r in rows], schema=self.plain)


def row(w, k, gen=0):
  x = 10 * k + gen
  return w.row(w.ser.serialize({"x": x}), k, b"f%d" % x if k else b"")


def value(r, field, deser):
  """What an element of a source over one field must look like."""
  if field == "t" and deser:
    return ("x", 10 * r["k"] + r["_gen"])
  return r[field]


def norm(v):
  if isinstance(v, dict) and set(v) == {"x"}:
    return ("x", int(v["x"]))
  if isinstance(v, dict):
    return tuple(sorted((k, norm(x)) for k, x in v.items()))
  return v


def elements(model, fields, deser, w):
  out = []
  for r in model.rows():
    vals = {}
    for f in fields:
      if f == "t" and deser:
        vals[f] = ("x", int(w.ser.deserialize(r["t"])["x"]))
      else:
        vals[f] = r[f]
    out.append(vals[fields[0]] if len(fields) == 1
               else tuple(sorted(vals.items())))
  return out


def rows_of(batch, fields):
  """Elements of a batched access of a source over several fields."""
  if len(fields) == 1:
    return [norm(x) for x in batch]
  return [tuple(sorted((f, norm(batch[f][i])) for f in fields))
          for i in range(len(batch[fields[0]]))]


def check_source(src, want, fields, depth, what, trace, counts, order=None):
  """All ways of accessing a source agree with each other and `want`."""
  bad = lambda sig, m: [violation(sig, f"{what}: {m}", trace)]
  n = len(src)
  if n != len(want):
    return bad("length", f"length {n}, expected {len(want)}")
  single = [norm(src[i]) for i in range(n)]
  if Counter(single) != Counter(want):
    return bad("elements", f"{single}, expected {want}")
  if order is not None and single != order:
    return bad("order", f"{single}, expected {order}")
  if [norm(x) for x in src] != single:
    return bad("iteration", "iteration differs from indexing")
  lists = [list(range(n)), list(reversed(range(n)))]
  for k in range(1, depth + 1):
    lists += [list(x) for x in itertools.product(range(n), repeat=k)]
  if depth < n <= 4:
    lists += [list(x) for x in itertools.permutations(range(n))]
  for idx in lists:
    counts["index_lists"] = counts.get("index_lists", 0) + 1
    for how, got in (("__getitems__", lambda: src.__getitems__(idx)),
                     ("list index", lambda: src[idx])):
      if not idx:
        continue
      r = rows_of(got(), fields)
      if r != [single[i] for i in idx]:
        return bad("batched", f"{how} {idx} returned {r}, single indexing "
                   f"{[single[i] for i in idx]}")
  try:
    src[n]
    return bad("out-of-range", f"index {n} of {n} elements was accepted")
  except Exception:  # pylint: disable=broad-except
    pass
  return []


MODES = [(("f",), False, True), (("f",), False, False), (("t",), True, True),
         (("t",), True, False), (("t",), False, True),
         (("f", "t"), False, False), (("t", "f"), False, True)]


def check(loc, w, model, trace, depth, counts, storage=None):
  v = []
  for fields, deser, native in MODES:
    what = f"fields {fields} deserialize={deser} array_record={native}"
    want = elements(model, list(fields), deser, w)
    try:
      src = RandomAccessDataSource(
          {f: storage or loc for f in fields}, deserialize=deser,
          use_array_record_data_source=native)
    except errors.UserInputError as e:
      if want:
        return [violation("rejected", f"{what}: {exc_str(e)}", trace)]
      continue
    except Exception as e:  # pylint: disable=broad-except
      return [violation("raised", f"{what}: {exc_str(e)}", trace)]
    try:
      v = check_source(src, want, list(fields), depth, what, trace, counts)
    except Exception as e:  # pylint: disable=broad-except
      v = [violation("raised", f"{what}: {exc_str(e)}", trace)]
    if v:
      return v
    counts["sources"] = counts.get("sources", 0) + 1
  return v


def check_addresses(loc, w, model, trace, counts):
  """Sources over given addresses: subsets, reversed, repeated."""
  ds = Dataset.load(loc)
  if not model.rows():
    return []
  t = ds.local().read_all(fields=["k", "f"], reference_read=True)
  by_key = {r["k"]: r for r in model.rows()}
  keys = t.column("k").to_pylist()
  n = len(keys)
  picks = [list(range(n)), list(reversed(range(n))), [0, 0], [n - 1, 0, n - 1]]
  picks += [[i] for i in range(n)]
  for pick in picks:
    a = t.take(pick).select(["f"])
    want = [by_key[keys[i]]["f"] for i in pick]
    for native in (True, False):
      what = f"addresses of rows {pick} array_record={native}"
      try:
        src = RandomAccessDataSource({"f": loc}, a,
                                     use_array_record_data_source=native)
        # The order of the addresses is kept by the Arrow source only.
        v = check_source(src, want, ["f"], 1, what, trace, counts,
                         None if native else want)
      except Exception as e:  # pylint: disable=broad-except
        v = [violation("raised", f"{what}: {exc_str(e)}", trace)]
      if v:
        return v
      counts["sources"] = counts.get("sources", 0) + 1
  return []


def _task(item):
  batches, opt, ops, tier = item
  w = _CTX["w"]
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {}}
  loc = harness.new_dir("p13")
  ds, model, trace = w.create(loc), w.model(), [opt]
  v = []
  for op in [("append_from", [[row(w, k) for k in b] for b in batches],
              opt)] + ops:
    t = driver.show_op(w, op)
    trace = trace + [[t[0], repr(t[1])]]
    v, _ = driver.step(ds, w, model, op, trace)
    out["transitions"] += 1
    if v:
      break
  depth = 1 if tier == "quick" else 2
  v = v or check(loc, w, model, trace, depth, out["counts"])
  v = v or check_addresses(loc, w, model, trace, out["counts"])
  if not v and tier != "quick":
    v = check(loc, w, model, trace + ["storage"], 1, out["counts"], ds.storage)
  if not v and not ops:
    # The source follows the branch of the handle it is given.
    ds.add_branch("b1")
    driver.run_op(ds, w, ("append", [row(w, 9)]))
    ds.set_current_branch("b1")
    m = model.copy()
    m.refs["b1"] = ("branch", m.current)
    for op in (("delete", ("cmp", "==", "k", 1)), ("append", [row(w, 8)])):
      if not v:
        v, _ = driver.step(ds, w, m, op, trace + ["on b1"], "b1")
    m.current = m.head("b1")
    v = v or check(loc, w, m, trace + ["on b1"], 1, out["counts"], ds.storage)
  out["violations"] = v
  harness.rm(loc)
  return out


def _two_task(item):
  """A source over the fields of two datasets: addresses paired as a join does.
  """
  shape_a, shape_b, opt, as_location, tier = item
  w = _CTX["w"]
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {}}
  locs, tables = [], []
  for gen, shape in enumerate((shape_a, shape_b)):
    loc = harness.new_dir("p13")
    ds = w.create(loc)
    driver.run_op(ds, w, ("append_from", [[row(w, k, gen) for k in b]
                                          for b in shape], opt))
    driver.run_op(ds, w, ("delete", ("cmp", "==", "k", 1)))
    locs.append(loc)
    tables.append(ds.local().read_all(fields=["k", "ft"[gen]],
                                      reference_read=True))
    out["transitions"] += 2
  keys = [t.column("k").to_pylist() for t in tables]
  n, m = len(keys[0]), len(keys[1])
  pairs = list(itertools.product(range(n), range(m)))
  picks = [pairs, pairs[::-1], pairs[:1], pairs[-1:] * 2]
  picks += [list(zip(range(n), p)) for p in itertools.permutations(range(m))]
  if tier == "quick":
    picks = picks[:4] + picks[5::3]
  v = []
  for pick in picks:
    if v:
      break
    a = pa.table({"t": tables[1].column("t").take([j for _, j in pick]),
                  "f": tables[0].column("f").take([i for i, _ in pick])})
    for deser in (False, True):
      if v:
        break
      what = f"two datasets, rows {pick}, deserialize={deser}"
      fields = ["t"] if deser else ["f", "t"]
      src_of = lambda i: locs[i] if as_location else Dataset.load(
          locs[i]).storage
      where = {"f": 0, "t": 1}
      want = []
      for i, j in pick:
        f, x = row(w, keys[0][i], 0)["f"], row(w, keys[1][j], 1)["t"]
        t = ("x", int(w.ser.deserialize(x)["x"])) if deser else x
        want.append(t if deser else (("f", f), ("t", t)))
      try:
        src = RandomAccessDataSource({f: src_of(where[f]) for f in fields}, a,
                                     deserialize=deser,
                                     use_array_record_data_source=False)
        v = check_source(src, want, fields, 1, what, [list(map(str, item))],
                         out["counts"], want)
      except Exception as e:  # pylint: disable=broad-except
        v = [violation("raised", f"{what}: {exc_str(e)}",
                       [list(map(str, item))])]
      out["counts"]["sources"] = out["counts"].get("sources", 0) + 1
  out["violations"] = v
  for loc in locs:
    harness.rm(loc)
  return out


def run(report, tier):
  w = _CTX["w"] = W13()
  quick = tier == "quick"
  items = []
  n = 4 if quick else 5
  shapes = [[[0, 1, 2, 3]], [[0], [1, 2], [3]], [[2, 0], [3, 1]]]
  if not quick:
    shapes = [[[0, 1, 2, 3, 4]], [[0, 1], [2, 3], [4]], [[4, 2], [0], [3, 1]],
              [[0], [1], [2], [3], [4]]]
  subsets = [list(s) for k in range(n + 1)
             for s in itertools.combinations(range(n), k)]
  for b in shapes:
    for opt in ("default", "filear", "cut") + (() if quick else (
        "ar", "mid", "rg")):
      for s in subsets:
        ops = [("delete", ("isin", "k", s))] if s else []
        items.append((b, opt, ops, tier))
        if not s:
          continue
        up = ("upsert", [row(w, k, 1) for k in reversed(s)])
        items.append((b, opt, [up], tier))
        if quick and len(s) not in (1, 3):
          continue
        for k in range(n):
          items.append((b, opt, [up, ("delete", ("cmp", "==", "k", k))], tier))
          if not quick:
            items.append((b, opt, ops + [("upsert", [row(w, k, 2),
                                                     row(w, 7, 2)])], tier))
  for r in harness.pmap(_task, items, chunksize=4):
    report.merge(r)
  report.sample({"batches": items[-1][0], "options": items[-1][1]})
  report.bump("layouts", len(items))
  report.bounds.append(
      f"{n} rows in {len(shapes)} batch shapes and {3 if quick else 6} file "
      "options; every subset deleted, upserted, and upserted then one key "
      f"deleted; 7 kinds of sources; all index lists up to length "
      f"{1 if quick else 2}, all forward and backward, all permutations of up to "
      "4 rows; addresses given in "
      "other orders and repeated")
  forms = [[[0, 1, 2, 3]], [[0], [1, 2], [3]], [[2, 0], [3, 1]]]
  items = [(a, b, o, i % 2 == 0, tier) for o in ("default", "filear", "cut")
           for i, (a, b) in enumerate(itertools.product(forms, forms))]
  for r in harness.pmap(_two_task, items):
    report.merge(r)
  report.bounds.append(
      f"{len(items)} pairs of datasets read by the addresses of pairs of their "
      "rows (all pairs, permutations, repeated)")
