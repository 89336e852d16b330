"""P21: join returns every matching pair exactly once."""

import itertools
import os
from collections import Counter

import pyarrow as pa
import pyarrow.compute as pc

from mc import driver, harness, sched
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import freeze, freeze_row

from space import Dataset, RayOptions
from space.core.options import JoinOptions, Range
from space.core.ops.read import read_record_column

# The key is neither first nor has it the same field ID on both sides.
LEFT = World("left", [("a", pa.float64()), ("k", pa.int64()),
                      ("r", pa.binary())], ["k"], ["r"])
RIGHT = World("right", [("b", pa.string()), ("c", pa.int64()),
                        ("k", pa.int64()), ("q", pa.binary())], ["k"], ["q"])


def lrow(k, n=0):
  return LEFT.row(n + 0.5, k, f"r{k}/{n}".encode())


def rrow(k, n=0):
  return RIGHT.row(f"b{k}/{n}", n - 1, k, f"q{k}/{n}".encode())


# ------------------------------------------------------------- partitions


def cut(points):
  """Cuts the range at those points that are inside of it."""

  def fn(range_):
    inner = [p for p in points if range_.min_ < p <= range_.max_]
    out, lo = [], range_.min_
    for p in inner:
      out.append(Range(lo, p))
      lo = p
    out.append(Range(lo, range_.max_, include_max=True))
    return out

  return fn


def wide(range_):
  """Ranges reaching beyond the range, some without any key."""
  return [Range(range_.min_ - 5, range_.min_), Range(range_.min_, range_.max_),
          Range(range_.max_, range_.max_ + 1),
          Range(range_.max_ + 1, range_.max_ + 9, include_max=True)]


def partitions(points):
  out = [("none", None), ("wide", wide)]
  for n in range(1, len(points) + 1):
    for c in itertools.combinations(points, n):
      out.append((f"cut{list(c)}", cut(c)))
  return out


# ----------------------------------------------------------------- sides


def rows_of(make, keys):
  seen, out = Counter(), []
  for k in keys:
    out.append(make(k, seen[k]))
    seen[k] += 1
  return out


def build(path, world, rows, layout, make):
  """A dataset holding the rows, stored in the given way."""
  ds = world.create(path)
  r = ds.local
  if layout == "one":
    if rows:
      r().append(world.table(rows))
  elif layout == "manifests":
    for x in rows:
      r().append(world.table([x]))
  elif layout == "files":
    if rows:
      r(driver.OPTIONS["filear"]).append_from(
          lambda: iter([world.table([x]) for x in reversed(rows)]))
  elif layout == "holes":
    # Statistics of row groups from before deletes, empty datasets with files.
    extra = [make(-7, 9), make(9, 9)]
    r(driver.OPTIONS["rg"]).append_from(
        lambda: iter([world.table(extra[:1] + list(rows)),
                      world.table(extra[1:])]))
    r().delete((pc.field("k") == -7) | (pc.field("k") == 9))
  elif layout == "unknown":
    # A row group of null keys leaves the file without statistics.
    r(driver.OPTIONS["rg"]).append_from(
        lambda: iter([world.table([make(None, 7)])]
                     + [world.table([x]) for x in rows]))
  elif layout == "nulls":
    # A manifest in which every key is null.
    r().append(world.table([make(None, 7)]))
    if rows:
      r().append(world.table(rows))
  return ds


def joined(lrows, rrows, key, lf, rf):
  """The expected rows of the join: key, left fields, right fields."""
  out = Counter()
  for a in lrows:
    for b in rrows:
      if a[key] is not None and a[key] == b[key]:
        out[(freeze(a[key]),) + tuple(freeze(a[f]) for f in lf)
            + tuple(freeze(b[f]) for f in rf)] += 1
  return out


def execute(view, part=None, parallelism=2, oracle=None):
  sched.use(oracle or sched.Schedule())
  return view.ray(RayOptions(max_parallelism=parallelism)).read_all(
      join_options=JoinOptions(partition_fn=part))


def compare(view, want, fields, trace, **kw):
  """Violations of one execution of the join."""
  try:
    got = execute(view, **kw)
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"raised:{type(e).__name__}", exc_str(e), trace)]
  if got is not None and got.num_rows and got.schema.names != list(fields):
    return [violation("fields", f"the result has the fields "
                      f"{got.schema.names}, expected {fields}", trace)]
  if got is not None and not got.num_rows:
    got = None
  bag = driver.bag_of_table(got, fields)
  if bag != want:
    return [violation("pairs", driver.diff_msg("join", bag, want), trace)]
  return []


def _out():
  return {"violations": [], "counts": {}, "transitions": 0, "states": 0}


def _close(out):
  out["traces"] = out["transitions"]
  return out


# -------------------------------------------------------------- contents

LAYOUTS = ("one", "manifests", "files", "holes", "nulls", "unknown")


def contents(tier):
  dom = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)
  out = [c for n in range(len(dom) + 1)
         for c in itertools.combinations(dom, n)]
  out += [(0, 0), (1, 1, 2), (None,), (None, 1), (2, 0, None, 0)]
  return out


_RIGHT = {}


def _right(tier, i, layout):
  """A right side, built once per process (joins only read)."""
  if (i, layout) not in _RIGHT:
    rows = rows_of(rrow, contents(tier)[i])
    ds = build(harness.new_dir("p21r"), RIGHT, rows, layout, rrow)
    _RIGHT[(i, layout)] = (ds.storage.location, rows)
  loc, rows = _RIGHT[(i, layout)]
  return Dataset.load(loc), rows


def _contents_task(item):
  tier, li, lay = item
  out = _out()
  cs = contents(tier)
  d = harness.new_dir("p21")
  lrows = rows_of(lrow, cs[li])
  left = build(os.path.join(d, "l"), LEFT, lrows, lay, lrow)
  parts = partitions((1, 2) if tier == "quick" else (0, 1, 2, 3))
  n = 0
  for ri, rlay in itertools.product(range(len(cs)), LAYOUTS):
    n += 1
    right, rrows = _right(tier, ri, rlay)
    view = left.join(right, keys=["k"])
    swapped = right.join(left, keys=["k"])
    lf, rf = ["a", "r"], ["b", "c", "q"]
    want = joined(lrows, rrows, "k", lf, rf)
    want2 = joined(rrows, lrows, "k", rf, lf)
    out["states"] += 1
    # All partitions of equal layouts; few for the others.
    use = parts if rlay == lay or tier != "quick" else parts[(n % len(parts)):][
        :1]
    for name, fn in use:
      out["transitions"] += 1
      trace = [list(cs[li]), lay, list(cs[ri]), rlay, name]
      out["violations"] += compare(view, want, ["k"] + lf + rf, trace, part=fn)
      if tier != "quick" or (rlay == lay and name in ("none", "cut[1, 2]")):
        out["violations"] += compare(swapped, want2, ["k"] + rf + lf,
                                     trace + ["swapped"], part=fn,
                                     parallelism=1)
    if len(out["violations"]) > 3:
      break
  harness.rm(d)
  return _close(out)


def all_contents(report, tier):
  items = [(tier, i, lay) for i in range(len(contents(tier)))
           for lay in LAYOUTS]
  for r in harness.pmap(_contents_task, items):
    report.merge(r)
  report.sample({"left": str(contents(tier)[-2]), "right": "(2, 0, None, 0)",
                 "partition": "cut[1, 2]"})
  report.bounds.append(
      f"all pairs of {len(contents(tier))} contents (subsets of the keys, "
      "duplicates, nulls) in 6 layouts each, both ways round, and all cuts of "
      "the key range")


# ---------------------------------------------- fields, views, references


def _keep_all(_):
  return True


def _keep_some(row):
  return row["k"] != 1


def _reorder(batch):
  return {"q2": batch["q"], "k": batch["k"], "b": batch["b"]}


def _left_map(batch):
  return {"k": batch["k"], "a": batch["a"] * 2, "r": batch["r"]}


LEFT_MAPPED = pa.schema([("k", pa.int64()), ("a", pa.float64()),
                         ("r", pa.binary())])
RIGHT_MAPPED = pa.schema([("q2", pa.binary()), ("k", pa.int64()),
                          ("b", pa.string())])


class Side:
  """An input of the join: a view, its rows and fields."""

  def __init__(self, view, rows, fields, rec, storage=None):
    self.view, self.rows, self.fields, self.rec = view, rows, fields, rec
    self.storage = storage


def left_sides(d, rows):
  ds = build(os.path.join(d, "l"), LEFT, rows, "files", lrow)
  plain = Side(ds, rows, ["a", "k", "r"], ["r"], ds.storage)
  mapped = [dict(r, a=r["a"] * 2) for r in rows]
  view = ds.map_batches(_left_map, output_schema=LEFT_MAPPED,
                        output_record_fields=["r"])
  mv = view.materialize(os.path.join(d, "mv"))
  sched.use(sched.Schedule())
  if rows:
    mv.ray(RayOptions(max_parallelism=1)).refresh()
  return {
      "dataset": plain,
      "filter": Side(ds.filter(_keep_some), [r for r in rows if r["k"] != 1],
                     ["a", "k", "r"], ["r"]),
      "map": Side(view, mapped, LEFT_MAPPED.names, ["r"]),
      "map.filter": Side(view.filter(_keep_some),
                         [r for r in mapped if r["k"] != 1],
                         LEFT_MAPPED.names, ["r"]),
      "stored": Side(mv.dataset, mapped, LEFT_MAPPED.names, ["r"],
                     mv.storage),
  }


def right_sides(d, rows):
  ds = build(os.path.join(d, "r"), RIGHT, rows, "manifests", rrow)
  fields = ["b", "c", "k", "q"]
  mapped = [{"q2": r["q"], "k": r["k"], "b": r["b"]} for r in rows]
  return {
      "dataset": Side(ds, rows, fields, ["q"], ds.storage),
      "filter": Side(ds.filter(_keep_some), [r for r in rows if r["k"] != 1],
                     fields, ["q"]),
      "map": Side(ds.map_batches(_reorder, output_schema=RIGHT_MAPPED,
                                 output_record_fields=["q2"]),
                  mapped, RIGHT_MAPPED.names, ["q2"]),
      "map.fields": Side(
          ds.map_batches(_reorder, input_fields=["k", "q", "b"],
                         output_schema=RIGHT_MAPPED),
          mapped, RIGHT_MAPPED.names, []),
  }


def selections(fields, tier):
  rest = [f for f in fields if f != "k"]
  out = [None]
  for n in range(1, len(rest) + 1):
    for c in itertools.permutations(rest, n) if tier != "quick" else (
        list(itertools.combinations(rest, n))
        + list(itertools.combinations(rest[::-1], n))):
      for with_key in (None, 0, len(c)) if tier != "quick" else (
          (None, 0, len(c))[len(out) % 3],):
        s = list(c)
        if with_key is not None:
          s.insert(with_key, "k")
        if s not in out:
          out.append(s)
  return out


def _resolve(storage, table, field):
  """The record values the addresses of a column lead to."""
  t = table.select([field])
  values = read_record_column(storage, t, field=field)
  return table.set_column(table.schema.get_field_index(field), field, values)


def _fields_task(item):
  tier, lk, rk, lname, rname = item
  out = _out()
  d = harness.new_dir("p21")
  ls, rs = left_sides(d, rows_of(lrow, lk))[lname], right_sides(
      d, rows_of(rrow, rk))[rname]
  modes = [(False, False)]
  if ls.storage and rs.storage:
    modes = [(False, False), (True, False), (False, True), (True, True)]
  for lsel, rsel in itertools.product(selections(ls.fields, tier),
                                      selections(rs.fields, tier)):
    lf = [f for f in lsel or ls.fields if f != "k"]
    rf = [f for f in rsel or rs.fields if f != "k"]
    if set(lf) & set(rf):
      continue
    for lref, rref in modes:
      trace = [list(lk), lname, lsel, lref, list(rk), rname, rsel, rref]
      out["transitions"] += 1
      fields = ["k"] + lf + rf
      try:
        view = ls.view.join(rs.view, ["k"],
                            None if lsel is None else list(lsel),
                            None if rsel is None else list(rsel), lref, rref)
        got = execute(view, cut([1, 2]) if out["transitions"] % 2 else None)
        v = []
        if view.schema.names != fields:
          v.append(violation("schema", f"the join's schema has the fields "
                             f"{view.schema.names}, expected {fields}", trace))
        recs = [f for f in lf if f in ls.rec] + [f for f in rf if f in rs.rec]
        if sorted(view.record_fields) != sorted(recs):
          v.append(violation("record-fields", f"{view.record_fields}, expected "
                             f"{recs}", trace))
        if list(view.primary_keys) != ["k"]:
          v.append(violation("keys", f"{view.primary_keys}", trace))
        if got is not None:
          if got.schema.names != fields:
            v.append(violation("fields", f"the result has {got.schema.names}, "
                               f"expected {fields}", trace))
          types = [view.schema.field(f).type for f in fields]
          if not v and [got.schema.field(f).type for f in fields] != types:
            v.append(violation("types", f"the result has the types "
                               f"{got.schema}, expected {view.schema}", trace))
          for side, flds, ref in ((ls, lf, lref), (rs, rf, rref)):
            for f in flds:
              if not v and ref and f in side.rec:
                if not pa.types.is_struct(got.schema.field(f).type):
                  v.append(violation("addresses", f"field {f} is "
                                     f"{got.schema.field(f)}", trace))
                else:
                  got = _resolve(side.storage, got, f)
      except Exception as e:  # pylint: disable=broad-except
        v = [violation(f"raised:{type(e).__name__}", exc_str(e), trace)]
      if not v:
        want = joined(ls.rows, rs.rows, "k", lf, rf)
        bag = driver.bag_of_table(got, fields)
        if bag != want:
          v = [violation("pairs", driver.diff_msg("join", bag, want), trace)]
      out["violations"] += v
    out["states"] += 1
    if len(out["violations"]) > 3:
      break
  harness.rm(d)
  return _close(out)


def inputs(report, tier):
  keys = [((0, 1, 2), (1, 2, 3)), ((0, 1), ())]
  if tier != "quick":
    keys += [((), (0,)), ((3, 1, 0, 2), (2, 1, 5)), ((0, 1), (2, 3)),
             ((4, 5), (1,))]
  lefts = ("dataset", "filter", "map", "map.filter", "stored")
  rights = ("dataset", "filter", "map", "map.fields")
  items = [(tier, lk, rk, a, b) for lk, rk in keys for a in lefts
           for b in rights]
  for r in harness.pmap(_fields_task, items):
    report.merge(r)
  report.bounds.append(
      "all pairs of 5 x 4 kinds of inputs (datasets, maps that reorder fields, "
      "filters, compositions, stored views), all selections of fields of both "
      "sides, with and without reference reads")


# -------------------------------------------------------------- key types

TYPES = {
    "int32": (pa.int32(), [-2**31, -1, 0, 1, 2**31 - 1]),
    "int64": (pa.int64(), [-2**63, -1, 0, 1, 2**63 - 1]),
    "float64": (pa.float64(), [float("-inf"), -0.5, 1e-300, 2.0,
                               float("inf")]),
    "float32": (pa.float32(), [-2.0, -0.5, 0.25, 2.0]),
    "string": (pa.string(), ["", "a", "a\x00", "b", "ä", "\U0001f600"]),
    "binary": (pa.binary(), [b"", b"\x00", b"\x00\x00", b"\x7f", b"\xff"]),
    "bool": (pa.bool_(), [False, True]),
}


def _types_task(item):
  name, li, tier = item
  type_, dom = TYPES[name]
  out = _out()
  lw = World("l", [("a", pa.int64()), ("k", type_)], ["k"])
  rw = World("r", [("k", type_), ("b", pa.int64())], ["k"])
  subsets = [c for n in range(1, len(dom) + 1)
             for c in itertools.combinations(range(len(dom)), n)]
  if tier == "quick":
    subsets = [s for s in subsets if len(s) <= 2 or len(s) == len(dom)]
  if li >= len(subsets):
    return _close(out)
  d = harness.new_dir("p21")
  lrows = [lw.row(i, dom[i]) for i in subsets[li]]
  left = lw.create(os.path.join(d, "l"))
  left.local(driver.OPTIONS["file"]).append_from(
      lambda: iter([lw.table([r]) for r in lrows]))
  for n, s in enumerate(subsets):
    rrows = [rw.row(dom[i], i) for i in s]
    right = rw.create(os.path.join(d, f"r{n}"))
    right.local().append(rw.table(rrows))
    want = joined(lrows, rrows, "k", ["a"], ["b"])
    view = left.join(right, keys=["k"])
    for pn, fn in (("none", None), ("all", cut(dom)), ("one", cut(dom[1:2]))):
      out["transitions"] += 1
      trace = [name, [repr(dom[i])[-20:] for i in subsets[li]],
               [repr(dom[i])[-20:] for i in s], pn]
      out["violations"] += compare(view, want, ["k", "a", "b"], trace, part=fn)
    out["states"] += 1
    if len(out["violations"]) > 3:
      break
  harness.rm(d)
  return _close(out)


def key_types(report, tier):
  items = [(n, i, tier) for n in TYPES for i in range(64)
           if i < 2 ** len(TYPES[n][1])]
  for r in harness.pmap(_types_task, items):
    report.merge(r)
  report.bounds.append(f"key types {', '.join(TYPES)}: pairs of sets of up to "
                       f"{'2 (and all)' if tier == 'quick' else 'all'} values "
                       "with 3 partitions")


# -------------------------------------------------------------- histories

ACTIONS = {
    "la": ("l", lambda n: ("append", [lrow(10 + n), lrow(2, n)], "default")),
    "lu": ("l", lambda n: ("upsert", [lrow(1, n), lrow(3, n)], "file")),
    "ld": ("l", lambda n: ("delete", ("cmp", "<=", "k", 1), "default")),
    "lD": ("l", lambda n: ("delete", ("lit", True), "default")),
    "ra": ("r", lambda n: ("append_from", [[rrow(10 + n)], [rrow(3, n)]],
                           "file")),
    "ru": ("r", lambda n: ("upsert", [rrow(1, n), rrow(-4, n)], "rg")),
    "rd": ("r", lambda n: ("delete", ("isin", "k", [1, 3]), "default")),
    "rD": ("r", lambda n: ("delete", ("lit", True), "default")),
}


def _history_task(item):
  seqs = item
  out = _out()
  for seq in seqs:
    d = harness.new_dir("p21")
    worlds = {"l": LEFT, "r": RIGHT}
    models = {s: w.model() for s, w in worlds.items()}
    ds = {s: w.create(os.path.join(d, s)) for s, w in worlds.items()}
    # Another handle changes the data than the one the view was made of.
    view = Dataset.load(ds["l"].storage.location).join(
        Dataset.load(ds["r"].storage.location), keys=["k"])
    trace, v = [], []
    for n, a in enumerate(seq):
      side, make = ACTIONS[a]
      op = make(n)
      trace.append(driver.show_op(worlds[side], op))
      v, _ = driver.step(ds[side], worlds[side], models[side], op, list(trace))
      want = joined(models["l"].snaps[models["l"].current].rows,
                    models["r"].snaps[models["r"].current].rows, "k",
                    ["a", "r"], ["b", "c", "q"])
      if not v:
        v = compare(view, want, ["k", "a", "r", "b", "c", "q"], list(trace),
                    part=cut([1, 2]) if n % 2 else None)
      out["transitions"] += 1
      if v:
        break
    out["violations"] += v
    out["states"] += 1
    harness.rm(d)
    if len(out["violations"]) > 3:
      break
  return _close(out)


def histories(report, tier):
  n = 4 if tier == "quick" else 5
  seqs = list(itertools.product(ACTIONS, repeat=n))
  if tier == "quick":
    # Both sides get data first.
    seqs = [s for s in seqs if s[0] in ("la", "lu") and s[1] in ("ra", "ru")]
  else:
    seqs = [s for s in seqs if s[0] in ("la", "lu")]
  for r in harness.pmap(_history_task,
                        [seqs[i:i + 8] for i in range(0, len(seqs), 8)]):
    report.merge(r)
  report.bump("histories", len(seqs))
  report.bounds.append(
      f"{len(seqs)} histories of {n} of {len(ACTIONS)} mutations of both "
      "sides, the same view joined after each")


# -------------------------------------------------------------- schedules


def _schedule_task(item):
  lk, rk, points, p, limit = item
  out = _out()
  d = harness.new_dir("p21")
  lrows, rrows = rows_of(lrow, lk), rows_of(rrow, rk)
  left = build(os.path.join(d, "l"), LEFT, lrows, "files", lrow)
  right = build(os.path.join(d, "r"), RIGHT, rrows, "manifests", rrow)
  view = left.join(right, keys=["k"])
  want = joined(lrows, rrows, "k", ["a", "r"], ["b", "c", "q"])
  fields = ["k", "a", "r", "b", "c", "q"]
  prefix, n = [], 0
  while prefix is not None and n < limit:
    oracle = sched.Schedule(prefix)
    out["violations"] += compare(
        view, want, fields, [list(lk), list(rk), list(points), p,
                             {"schedule": prefix}],
        part=cut(points), parallelism=p, oracle=oracle)
    prefix = sched.following(oracle.log)
    n += 1
    if len(out["violations"]) > 3:
      break
  out["counts"]["schedules"] = n
  if prefix is not None:
    out["counts"]["schedules_truncated"] = 1
  # A crashed task fails the join, or is tried again with the same result.
  oracle = sched.Schedule()
  compare(view, want, fields, [], part=cut(points), parallelism=p,
          oracle=oracle)
  for i, kind in itertools.product(range(len(oracle.calls)),
                                   ("crash", "retry")):
    n += 1
    try:
      got = execute(view, cut(points), p, sched.Schedule(fault=(i, kind)))
    except Exception as e:  # pylint: disable=broad-except
      if kind == "retry":
        out["violations"].append(violation("retry", exc_str(e), [i, kind]))
      continue
    bag = driver.bag_of_table(got, fields)
    if bag != want:
      out["violations"].append(violation(
          f"pairs-after-{kind}", driver.diff_msg("join", bag, want),
          [list(lk), list(rk), list(points), p, f"{kind} at call {i}"]))
  out["states"] = n
  out["transitions"] = n
  harness.rm(d)
  return _close(out)


def schedules(report, tier):
  limit = 400 if tier == "quick" else 20000
  items = [((0, 1, 2), (0, 1, 2), (1,), 2, limit),
           ((0, 1, 2), (1, 2), (1, 2), 1, limit),
           ((0, 0, 1), (1, 0), (1,), 3, limit)]
  for r in harness.pmap(_schedule_task, items):
    report.merge(r)
  if report.extra.get("schedules_truncated"):
    report.exhaustive = False
  report.bounds.append(f"every order of the tasks of 3 joins (up to {limit}), "
                       "and a crash or retry of every one")


def run(report, tier):
  all_contents(report, tier)
  inputs(report, tier)
  key_types(report, tier)
  histories(report, tier)
  schedules(report, tier)
  report.assumptions += [
      "the fields of both sides other than the key have different names and "
      "are not nested (as Arrow's join requires); maps keep the key",
      "partition functions return ranges that cover the given range once",
      "Ray itself is not installed: /verif/raystub executes the remote calls"]
