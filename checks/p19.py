"""P19: the distributed runner computes the same as the local one."""

import itertools
from collections import Counter

import pyarrow as pa

from mc import bfs, driver, expr, harness, history, invariant, sched
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED, freeze
from checks import large, shapes, sources
from checks.p16 import _Records

from space import Dataset, RayOptions, ReadOptions
from space.core.utils import errors

W = World("ray", [("k", pa.int64()), ("v", pa.string()), ("r", pa.binary())],
          ["k"], ["r"])
C = World("compound", [("v", pa.float64()), ("a", pa.int64()),
                       ("b", pa.string())], ["b", "a"])
WORLDS = {w.name: w for w in (W, C)}


def row(k, x="a"):
  return W.row(k, None if k == 3 else f"{x}{k}", f"{x}{k}".encode() * (k % 3))


def crow(k, x="a"):
  return C.row(None if k == 2 else k + len(x) / 8, k // 2, "xy"[k % 2])


ROW = {"ray": row, "compound": crow}
KEY = {"ray": "k", "compound": "a", "row": "k", "crow": "a"}

LAYOUTS = {
    "empty": lambda R: [],
    "one": lambda R: [("append", [R(1), R(2), R(3)], "default")],
    # Several files in one manifest.
    "files": lambda R: [("append_from", [[R(1), R(2)], [R(3)], [R(4), R(5)]],
                         "filear")],
    "manifests": lambda R: [
        ("append_from", [[R(1)], [R(2), R(3)]], "file"),
        ("append", [R(4)], "rg"), ("append", [R(5), R(6)], "default")],
    # The keys of every file are in the key range of other files.
    "overlap": lambda R: [
        ("append", [R(1), R(6)], "default"),
        ("append_from", [[R(2), R(5)], [R(3), R(7)]], "filear"),
        ("append", [R(0), R(4)], "default")],
    # A partial delete of a file, recorded as a bitmap of its rows.
    "bitmap": lambda R: [
        ("append", [R(k) for k in range(1, 7)], "default"),
        ("delete", ("isin", KEY[R.__name__], [2, 3, 5]
                    if R is row else [1]), "default"),
        ("upsert", [R(4, "u"), R(5, "u")], "default"),
        ("delete", ("cmp", "==", KEY[R.__name__], 4 if R is row else 2),
         "default")],
    "rewritten": lambda R: [
        ("append_from", [[R(1), R(2)], [R(3), R(4)], [R(5), R(6)]], "filear"),
        ("upsert", [R(2, "bb"), R(7, "bb")], "default"),
        ("delete", ("cmp", "==", KEY[R.__name__],
                    5 if R is row else 2), "file")],
}


def build(world, layout):
  d = harness.new_dir("p19")
  ds, m = world.create(d), world.model()
  for op in LAYOUTS[layout](ROW[world.name]):
    v, _ = driver.step(ds, world, m, op, [])
    if v:
      raise RuntimeError(f"cannot build {layout}: {v}")
  return d, m


def deletes(world):
  f = KEY[world.name]
  out = [("cmp", ">=", f, 2), ("cmp", "==", f, 2), ("lit", True),
         ("cmp", "<", f, 0), ("isin", f, [1, 3, 4]), ("isnull", "v"),
         ("not", ("cmp", "<=", f, 3))]
  if world is C:
    out.append(("and", ("cmp", "==", "b", "y"), ("cmp", "<", "a", 2)))
  return [("delete", e) for e in out]


def writes(world):
  R = ROW[world.name]
  out = [("append", [], "table"), ("append", [R(8)], "table"),
         ("append", [R(8), R(9)], "pydict" if world is W else "table"),
         ("append", [R(8), R(9), R(10), R(11), R(12)], "sliced"),
         ("append_from", [[R(8)], [], [R(9), R(10)]], "fns"),
         ("append_from", [[R(8), R(9)], [R(10)], [R(11)], [R(12)]], "fns"),
         ("append_from", [[], []], "fns"),
         ("append_from", [[R(8)], [R(9)]], "iter"),
         ("insert", [R(8), R(9), R(0)], "table"),
         ("insert", [R(9), R(2)], "table"), ("insert", [R(9), R(9)], "table"),
         ("upsert", [R(9, "n"), R(2, "n"), R(3, "n")], "table"),
         ("upsert", [R(4, "n")], "table")]
  return out


def observe(ds, world, model, op, trace, before, sid_before, counts, result):
  """The state after an operation: rows, files, statistics, changes."""
  want = model.bag(model.rows())
  v = driver.expect_bag("rows", lambda: driver.read_bag(ds, world.fields), want,
                        trace)
  v = v or invariant.check_version(ds, world, model.rows(), trace, None, counts)
  if v:
    return v
  sid = ds.storage.metadata.current_snapshot_id
  if sid != model.current:
    return [violation("version", f"version {sid}, expected {model.current}",
                      trace)]
  after = invariant.totals(ds, None)
  u = result.storage_statistics_update if result is not None else None
  if u is not None and result.state.name == SUCCEEDED:
    got = (u.num_rows, u.index_compressed_bytes, u.index_uncompressed_bytes,
           u.record_uncompressed_bytes)
    delta = tuple(a - b for a, b in zip(after, before))
    if got != delta:
      return [violation("result-statistics", f"the result says {got}, the "
                        f"totals changed by {delta}", trace)]
  if sid != sid_before:
    for name, runner in (("local", ds.local()),
                         ("ray", ds.ray(RayOptions(max_parallelism=2)))):
      try:
        got = history.impl_diff(ds, world, sid_before, sid, runner=runner)
      except Exception as e:  # pylint: disable=broad-except
        return [violation(f"diff-raised:{type(e).__name__}", exc_str(e), trace)]
      exp = history.model_diff(model, sid_before, sid)
      if got != exp:
        return [violation(f"diff:{name}", f"{name} diff {got}, expected {exp}",
                          trace)]
  return []


# ------------------------------------------------------------- schedules


def _schedules(item):
  """Every order of the tasks of one operation."""
  name, layout, op, p, option = item
  world = WORLDS[name]
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  src, model0 = build(world, layout)
  ds0 = Dataset.load(src)
  before = invariant.totals(ds0, None)
  n, cut = 0, _LIMIT[0]
  for oracle in sched.schedules(cut):
    n += 1
    d = harness.new_dir("p19s")
    driver.copy_tree(src, d)
    ds, m = Dataset.load(d), model0.copy()
    full = (op[0], op[1], f"ray{p}*:{option}") + tuple(op[2:])
    trace = [name, layout, driver.show_op(world, full)]
    v, _ = driver.step(ds, world, m, full, trace)
    if not v:
      try:
        sched.drain()
      except Exception:  # pylint: disable=broad-except
        pass
      trace = trace + [{"schedule": oracle.choices()}]
      choices = list(oracle.log)
      result = driver.LAST[0] if driver.LAST else None
      sched.use(sched.Schedule())
      v = observe(Dataset.load(d), world, m, full, trace, before,
                  model0.current, out["counts"], result)
      oracle.log = choices
      # The handle that ran the operation sees it, too.
      v = v or driver.expect_bag(
          "rows of the same handle", lambda: driver.bag_of_table(
              ds.ray(RayOptions(max_parallelism=p)).read_all(), world.fields),
          m.bag(m.rows()), trace)
      oracle.log = choices
    out["violations"] += v
    out["transitions"] += 1
    harness.rm(d)
    if len(out["violations"]) > 3:
      break
  if n == cut:
    out["counts"]["schedules_truncated"] = 1
  out["states"], out["traces"] = n, n
  out["counts"]["schedules"] = n
  harness.rm(src)
  return out


_LIMIT = [None]


def schedules(report, tier):
  _LIMIT[0] = 150 if tier == "quick" else 3000
  items = []
  for w in (W, C):
    for layout in LAYOUTS:
      for i, (op, p) in enumerate(itertools.product(
          writes(w), (1, 2, 3) if tier == "quick" else (1, 2, 3, 4))):
        if tier == "quick" and (p == 3 or layout in ("overlap", "bitmap")) and (
            w is C or layout != "one" or op[0] == "upsert"):
          continue
        if tier == "quick" and op[0].startswith("append") and layout in (
            "manifests", "empty", "overlap", "bitmap"):
          continue
        items.append((w.name, layout, op, p,
                      ("default", "file", "filear")[i % 3]))
      if layout == "overlap":
        R = ROW[w.name]
        probes = [("insert", [R(k)], "table") for k in range(9)]
        probes += [("insert", [R(k), R(9)], "table") for k in (1, 2, 3)]
        probes += [("upsert", [R(k, "u"), R(9, "u")], "table")
                   for k in range(8)]
        items += [(w.name, layout, op, 2, "default") for op in probes]
      for i, op in enumerate(deletes(w)):
        items.append((w.name, layout, op, 2, ("default", "file")[i % 2]))
  for r in harness.pmap(_schedules, items):
    report.merge(r)
  report.bump("schedule_programs", len(items))
  if report.extra.get("schedules_truncated"):
    report.exhaustive = False
  report.sample({"program": str(items[-1])})
  report.bounds.append(
      f"{len(items)} programs (operation, layout, parallelism, file options): "
      "every order of their remote calls that keeps the order of each "
      f"actor's calls, up to {_LIMIT[0]} orders per program")


# ---------------------------------------------------------------- faults


class _Fail(RuntimeError):
  pass


def _bad_source(batches, at, table):
  def source():
    for i, b in enumerate(batches):
      if i == at:
        raise errors.UserInputError("the source fails")
      yield table(b)
    if at == len(batches):
      raise errors.UserInputError("the source fails")
  return source


def _faults(item):
  name, layout, op, p, option, last = item
  world = WORLDS[name]
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  src, model0 = build(world, layout)
  before = invariant.totals(Dataset.load(src), None)
  full = (op[0], op[1], f"ray{p}*:{option}") + tuple(op[2:])

  # How many remote calls does the operation make?
  d = harness.new_dir("p19f")
  driver.copy_tree(src, d)
  o = sched.use(sched.Schedule(last=last))
  driver.run_op(Dataset.load(d), world, full)
  sched.drain()
  calls = list(o.calls)
  harness.rm(d)
  for i, kind in itertools.product(range(len(calls)),
                                   ("crash", "crash-after", "retry")):
    d = harness.new_dir("p19f")
    driver.copy_tree(src, d)
    ds, m = Dataset.load(d), model0.copy()
    trace = [name, layout, driver.show_op(world, full),
             {"fault": f"{kind} in call {i}: {calls[i]}", "last": last}]
    sched.use(sched.Schedule(fault=(i, kind), last=last))
    ok, result, state = True, None, ""
    try:
      result = driver.run_op(ds, world, full)
      state = result.state.name
      sched.drain()
    except Exception as e:  # pylint: disable=broad-except
      ok = ok and result is not None
      state = state or f"raised {type(e).__name__}"
    expected, dropped = m.copy(), m.copy()
    want = expected.apply(full)
    if kind == "retry" or state == want:
      # The failure was hidden by a retry or concerned no needed call: then
      # the operation has its full effect.
      if state != want:
        out["violations"].append(violation(
            f"retry-state:{op[0]}", f"{state}, expected {want}", trace))
      m = expected
    elif state == SUCCEEDED:
      out["violations"].append(violation(
          f"fault-succeeded:{op[0]}", f"{state}, expected {want}", trace))
    else:
      out["counts"]["failed_operations"] = out["counts"].get(
          "failed_operations", 0) + 1
    sched.use(sched.Schedule())
    v = observe(Dataset.load(d), world, m, full, trace, before, model0.current,
                out["counts"], result)
    # Operations afterwards, by the same handle.
    if not v:
      t = trace + ["the same operation again"]
      v, _ = driver.step(ds, world, m, full, t)
      v = v or driver.expect_bag("rows", lambda: driver.read_bag(
          ds, world.fields), m.bag(m.rows()), t)
    out["violations"] += v
    out["transitions"] += 2
    out["states"] += 1
    harness.rm(d)
    if len(out["violations"]) > 3:
      break

  if op[0] == "append_from":
    # A failing source.
    batches = op[1]
    for i, at in itertools.product(range(2), range(len(batches) + 1)):
      d = harness.new_dir("p19f")
      driver.copy_tree(src, d)
      ds, m = Dataset.load(d), model0.copy()
      table = world.table
      good = lambda: iter([table([ROW[name](20)])])
      bad = _bad_source(batches, at, table)
      trace = [name, layout, "append_from", {"fails at": at, "function": i}]
      sched.use(sched.Schedule(last=last))
      try:
        state = ds.ray(RayOptions(max_parallelism=p)).append_from(
            [good, bad] if i else [bad, good]).state.name
        sched.drain()
      except Exception as e:  # pylint: disable=broad-except
        state = f"raised {type(e).__name__}"
      if state in ("SUCCEEDED", "SKIPPED"):
        out["violations"].append(violation(
            "source-failure-lost", f"append_from of a failing source: {state}",
            trace))
      sched.use(sched.Schedule())
      v = observe(Dataset.load(d), world, m, None, trace, before,
                  model0.current, out["counts"], None)
      out["violations"] += v
      out["transitions"] += 1
      harness.rm(d)
  harness.rm(src)
  out["traces"] = out["transitions"]
  return out


def faults(report, tier):
  items = []
  for w in (W,) if tier == "quick" else (W, C):
    for layout in ("files", "rewritten") if tier == "quick" else LAYOUTS:
      for i, op in enumerate(writes(w) + deletes(w)[:4]):
        for last in (False, True):
          if tier == "quick" and (i % 2) == last:
            continue
          items.append((w.name, layout, op, 2 if tier == "quick" else 3,
                        ("default", "filear")[i % 2], last))
  for r in harness.pmap(_faults, items):
    report.merge(r)
  report.bump("fault_programs", len(items))
  report.bounds.append(
      f"{len(items)} programs: every remote call (actor creation, actor call, "
      "task) fails before or after its work, or is run twice; every position "
      "at which a source of append_from fails")


# ----------------------------------------------------------------- reads


def _reads(item):
  name, layout, p, block, batches = item
  world = WORLDS[name]
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 1}
  src, model = build(world, layout)
  ds = Dataset.load(src)
  ds.add_tag("t", 1 if model.current else 0)
  model.refs["t"] = ("tag", 1 if model.current else 0)
  ds.add_branch("b")
  model.refs["b"] = ("branch", model.current)
  resolve = _Records(src)
  f = KEY[name]
  filters = (None, ("cmp", ">=", f, 2), ("isnull", "v"), ("lit", False),
             ("isin", f, [1, 3, 4]))
  fields_list = [None] + [list(s) for n in (1, 2)
                          for s in itertools.combinations(world.fields, n)]
  versions = [(None, None), ("t", model.refs["t"][1]), ("b", model.current),
              (max(model.snaps) - 1 if model.current else 0,) * 2]
  ro = RayOptions(max_parallelism=p, enable_row_range_block=block)
  for fields, size, filter_, ref, (version, sid) in itertools.product(
      fields_list, batches, filters, (False, True), versions):
    rows = model.rows(sid)
    if filter_ is not None:
      rows = [r for r in rows if expr.evaluate(filter_, r) is True]
    names = world.fields if fields is None else fields
    want = Counter(tuple(freeze(r[x]) for x in names) for r in rows)
    kw = dict(filter_=None if filter_ is None else expr.to_arrow(filter_),
              fields=None if fields is None else list(fields),
              batch_size=size, reference_read=ref, version=version)
    trace = [name, layout, {"parallelism": p, "row_range_block": block,
                            "fields": fields, "filter": filter_,
                            "batch_size": size, "reference_read": ref,
                            "version": version}]
    sched.use(sched.Schedule(last=len(names) % 2 == 0))
    got = Counter()
    v = []
    try:
      for t in ds.ray(ro).read(**kw):
        if sorted(t.column_names) != sorted(names):
          v = [violation("columns", f"{t.column_names}, expected {names}",
                         trace)]
          break
        if size is not None and t.num_rows > size:
          v = [violation("batch-size", f"{t.num_rows} rows in a batch", trace)]
        for r in t.to_pylist():
          if ref:
            r = {x: resolve(y) if x in world.rec else y for x, y in r.items()}
          got[tuple(freeze(r[x]) for x in names)] += 1
    except Exception as e:  # pylint: disable=broad-except
      v = [violation(f"read-raised:{type(e).__name__}", exc_str(e), trace)]
    if not v and got != want:
      v = [violation("read", driver.diff_msg("ray read", got, want), trace)]
    if not v and version is None:
      # The Ray dataset of the same rows, and its count.
      try:
        rd = ds.ray_dataset(ro, ReadOptions(kw["filter_"], kw["fields"],
                                            None, ref, size))
        n = rd.count()
        m = sum(b.num_rows for b in rd.iter_batches(
            batch_size=None, batch_format="pyarrow"))
        if not n == m == len(rows):
          v = [violation("count", f"count() is {n}, the dataset has {m} rows, "
                         f"expected {len(rows)}", trace)]
      except Exception as e:  # pylint: disable=broad-except
        v = [violation(f"dataset-raised:{type(e).__name__}", exc_str(e), trace)]
    out["violations"] += v
    out["transitions"] += 1
    if len(out["violations"]) > 3:
      break

  # All changes, by every pair of versions, in both orders of the tasks.
  for last, size in itertools.product((False, True), batches):
    for e in sorted(model.snaps):
      for s in model.ancestors(e)[1:]:
        trace = [name, layout, {"diff": (s, e), "batch_size": size,
                                "parallelism": p, "row_range_block": block}]
        sched.use(sched.Schedule(last=last))
        try:
          kw = {} if size is None else {"batch_size": size}
          got = history.impl_diff(ds, world, s, e, runner=ds.ray(ro), **kw)
        except Exception as ex:  # pylint: disable=broad-except
          out["violations"].append(violation(
              f"diff-raised:{type(ex).__name__}", exc_str(ex), trace))
          continue
        want = history.model_diff(model, s, e)
        out["transitions"] += 1
        if got != want:
          out["violations"].append(violation(
              "diff", f"{got}, expected {want}", trace))
  out["traces"] = out["transitions"]
  harness.rm(src)
  return out


def reads(report, tier):
  items = []
  for w, layout in itertools.product((W, C), LAYOUTS):
    for p, block in itertools.product((1, 2, 4), (True, False)):
      if tier == "quick" and ((w is C) != (p == 4) or layout == "overlap" or
                              layout == "empty" and p == 2):
        continue
      for b in ((None, 1, 2), (3, 4, 100)) if tier != "quick" else ((None, 2),):
        items.append((w.name, layout, p, block, b))
  for r in harness.pmap(_reads, items):
    report.merge(r)
  report.bounds.append(
      f"{len(items)} combinations of layout, parallelism and row range blocks, "
      "each with the product of field subsets, batch sizes, filters, values or "
      "references, and versions; all diffs between versions")


# ------------------------------------------------------------- histories


def histories(report, tier):
  """Local and distributed operations in turn."""
  R = row
  ops = [("append", [R(8), R(9), R(1)], "ray2:default"),
         ("append_from", [[R(2), R(3)], [R(4)], [R(5)]], "ray2r:filear", "fns"),
         ("append_from", [[R(2), R(6)], [R(7)]], "filear"),
         ("insert", [R(1, "i"), R(10, "i")], "ray3:default"),
         ("upsert", [R(2, "u"), R(9, "u")], "ray2r:file"),
         ("upsert", [R(4, "l")], "default"),
         ("delete", ("cmp", ">=", "k", 4), "ray2:default"),
         ("delete", ("isin", "k", [1, 3, 5]), "ray2r:file"),
         ("delete", ("isin", "k", [2, 5, 8]), "rg")]

  def chk(ds, world, model, op, state, trace, location, out):
    ds = Dataset.load(location)
    v = driver.expect_bag("rows", lambda: driver.read_bag(ds, W.fields),
                          model.bag(model.rows()), trace)
    v = v or invariant.check_version(ds, W, model.rows(), trace)
    if v:
      return v
    sched.use(sched.Schedule(last=len(trace) % 2 == 0))
    runner = ds.ray(RayOptions(max_parallelism=3))
    v = driver.expect_bag("ray rows", lambda: driver.bag_of_table(
        runner.read_all(batch_size=2), W.fields), model.bag(model.rows()), trace)
    if not v and model.current:
      try:
        got = history.impl_diff(ds, W, 0, model.current, runner=runner)
      except Exception as e:  # pylint: disable=broad-except
        return [violation(f"diff-raised:{type(e).__name__}", exc_str(e), trace)]
      want = history.model_diff(model, 0, model.current)
      if got != want:
        v = [violation("diff", f"{got}, expected {want}", trace)]
    return v

  depth = 3 if tier == "quick" else 4
  bfs.explore(report, W, lambda m, n: ops, depth, chk)
  report.bounds.append(f"histories of up to {depth} of {len(ops)} operations "
                       "by the local and the Ray runner")


# -------------------------------------------------------------- branches


def _branches(item):
  """Ray operations act on the branch of their handle."""
  ops = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 1}
  d, m = build(W, "files")
  ds, branch = Dataset.load(d), "main"
  trace = []
  sched.use(sched.Schedule())
  for op in ops:
    trace = trace + [history.show(W, op)]
    v, _, branch = history.act(ds, W, m, op, trace, branch)
    if not v:
      v = driver.expect_bag(
          "rows of the branch", lambda: driver.bag_of_table(
              ds.ray(RayOptions(max_parallelism=2)).read_all(), W.fields),
          m.bag(m.rows(branch=branch)), trace)
    v = v or history.check_all_versions(ds, W, m, trace, branch)
    out["transitions"] += 1
    if v:
      out["violations"] += v
      break
  out["traces"] = out["transitions"]
  harness.rm(d)
  return out


def branches(report, tier):
  R = row
  a = [("append", [R(8), R(9)], "ray2:default"),
       ("upsert", [R(2, "b")], "ray2r:file"),
       ("delete", ("cmp", ">=", "k", 3), "ray2:default"),
       ("checkout", "b1"), ("checkout", "main"), ("checkout", "b2")]
  n = 3 if tier == "quick" else 4
  items = [(("branch", "b1"), ("branch", "b2"), ("checkout", "b1")) + s
           for s in itertools.product(a, repeat=n) if not all(
               x[0] == "checkout" for x in s)]
  for r in harness.pmap(_branches, items, chunksize=4):
    report.merge(r)
  report.bounds.append(f"{len(items)} histories over two branches and main")


def run(report, tier):
  schedules(report, tier)
  faults(report, tier)
  reads(report, tier)
  branches(report, tier)
  histories(report, tier)
  large.run(report, tier, True)
  shapes.run(report, 13 if tier == "quick" else 30, True)
  sources.run(report, ("ray2:filear", "ray3r:file") if tier == "quick" else (
      "ray1:default", "ray2:filear", "ray2r:default", "ray3:file"), 3)
  report.traces = report.transitions
  report.assumptions += [
      "Ray itself is not installed: /verif/raystub executes the remote calls "
      "in one process with serialized arguments, each call being atomic (calls "
      "share no files they write); the repository's own Ray tests pass on it",
      "the blocks of a Ray dataset come in any order"]
