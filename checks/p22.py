"""P22: a stored view definition reloads to the same transform."""

import functools
import itertools
import json
import os
import shutil
import subprocess
import sys
from collections import Counter

import cloudpickle
import pyarrow as pa

from mc import driver, harness, sched
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import freeze_row

from space import Dataset, RayOptions
from space.core.utils import errors
from space.core.views import MaterializedView

# Fields whose IDs are not their positions: nested fields have IDs, too.
S = World("source", [
    ("st", pa.struct([("x", pa.int64()), ("y", pa.string())])),
    ("a", pa.float64()), ("k", pa.int64()), ("l", pa.list_(pa.int64())),
    ("r", pa.binary()), ("j", pa.string())], ["k"], ["r"])
# Compound keys and two record fields.
C2 = World("compound", [
    ("r", pa.binary()), ("j", pa.string()), ("a", pa.float64()),
    ("k", pa.int64()), ("q", pa.binary())], ["k", "j"], ["q", "r"])
WORLDS = {w.name: w for w in (S, C2)}


def make_row(world, k, n=0):
  value = {"st": {"x": k * 10 + n, "y": f"y{k}"}, "a": k + n / 4, "k": k,
           "l": [k, n], "r": f"r{k}/{n}".encode(), "j": f"j{k % 3}",
           "q": f"q{k}/{n}".encode()}
  return {f: value[f] for f in world.fields}


# ------------------------------------------------------------- transforms


def _odd_key(row):
  return row["k"] % 2 == 1


class Above:
  """A filter that is an object."""

  def __init__(self, limit):
    self.limit = limit

  def __call__(self, row):
    return row["k"] >= self.limit


def _rename_fn(names, batch):
  return {n: batch[f] for f, n in names}


def _batch_of(fields, change, batch):
  out = {f: batch[f] for f in fields}
  for f, fn in change.items():
    out[f] = fn(batch)
  return out


class State:
  """A view under construction: its type, and how its rows are computed."""

  def __init__(self, view, schema, pk, rec, fn):
    self.view, self.schema, self.pk, self.rec = view, schema, pk, rec
    self.fn = fn  # rows of the source -> rows

  @property
  def fields(self):
    return self.schema.names


def _map(s, fn, schema, rec, row_fn, **kw):
  prev = s.fn
  return State(s.view.map_batches(fn, schema, output_record_fields=rec, **kw),
               schema, s.pk, rec or [], lambda rs: [row_fn(r) for r in prev(rs)])


def _filter(s, fn):
  prev = s.fn
  return State(s.view.filter(fn), s.schema, s.pk, s.rec,
               lambda rs: [r for r in prev(rs) if fn(r)])


def t_filter(s):
  return _filter(s, _odd_key)


def t_object(s):
  return _filter(s, Above(2))


def t_lambda(s):
  limit = 4
  return _filter(s, lambda row: row["k"] < limit)


def t_reverse(s):
  """All fields in another order; no record fields any more."""
  schema = pa.schema([(f.name, f.type) for f in reversed(list(s.schema))])
  fn = functools.partial(_rename_fn, [(f, f) for f in schema.names])
  return _map(s, fn, schema, None, lambda r: {f: r[f] for f in schema.names})


def t_change(s):
  """A field changes; one row per batch; all binary fields are records."""
  schema = pa.schema([(f.name, f.type) for f in s.schema])
  rec = [f.name for f in schema if pa.types.is_binary(f.type)
         and f.name not in s.pk]

  def fn(batch):
    batch = dict(batch)
    batch["k"] = batch["k"] + 0
    for n in rec:
      batch[n] = [x + b"+" for x in batch[n]]
    return batch

  return _map(s, fn, schema, rec,
              lambda r: {f: r[f] + b"+" if f in rec else r[f] for f in r},
              batch_size=1)


def t_subset(s):
  """Reads and writes the keys and the last other field only."""
  others = [f for f in s.fields if f not in s.pk]
  names = others[-1:] + s.pk[::-1]
  schema = pa.schema([(n, s.schema.field(n).type) for n in names])
  fn = functools.partial(_batch_of, names, {})
  return _map(s, fn, schema, [n for n in others[-1:] if n in s.rec],
              lambda r: {n: r[n] for n in names},
              input_fields=list(names), batch_size=2)


def t_rename(s):
  names = [(f, f if f in s.pk else f + "_") for f in s.fields]
  schema = pa.schema([(n, s.schema.field(f).type) for f, n in names])
  rec = [n for f, n in names if f in s.rec]
  return _map(s, functools.partial(_rename_fn, names), schema, rec,
              lambda r: {n: r[f] for f, n in names})


def t_add(s):
  """Adds a record field in front and a nested field at the end."""
  new, st = f"z{len(s.fields)}", f"n{len(s.fields)}"
  schema = pa.schema([(new, pa.binary())]
                     + [(f.name, f.type) for f in s.schema]
                     + [(st, pa.struct([("u", pa.int64()), ("v", pa.string())]))
                        ])

  def fn(batch):
    out = {new: [str(int(x)).encode() for x in batch["k"]]}
    out.update(batch)
    out[st] = [{"u": int(x), "v": "v"} for x in batch["k"]]
    return out

  return _map(s, fn, schema, [new] + s.rec, lambda r: {
      new: str(r["k"]).encode(), **r, st: {"u": r["k"], "v": "v"}})


TRANSFORMS = {f.__name__[2:]: f for f in (
    t_filter, t_object, t_lambda, t_reverse, t_change, t_subset, t_rename,
    t_add)}


def build(ds, world, chain):
  s = State(ds, pa.schema([(f.name, f.type) for f in world.schema]), world.pk,
            world.rec, lambda rs: [dict(r) for r in rs])
  for t in chain:
    s = TRANSFORMS[t](s)
  return s


# ---------------------------------------------------------------- compare


def describe(view):
  """What a view tells about itself, with the field IDs."""

  def fields(fs):
    out = []
    for f in fs:
      out.append((f.name, str(f.type), f.nullable,
                  sorted((f.metadata or {}).items()),
                  fields(list(f.type)) if pa.types.is_struct(f.type) else
                  fields([f.type.value_field]) if pa.types.is_list(f.type)
                  else []))
    return out

  return {"schema": fields(view.schema), "primary_keys": list(
      view.primary_keys), "record_fields": list(view.record_fields),
          "sources": sorted((n, d.storage.location)
                            for n, d in view.sources.items())}


def virtual_rows(view, fields, p=2):
  sched.use(sched.Schedule())
  return driver.bag_of_table(
      view.ray(RayOptions(max_parallelism=p)).read_all(), fields)


def diff_rows(view, fields, keys, start, end):
  """Deleted keys and added rows between two versions."""
  sched.use(sched.Schedule())
  dels, adds = Counter(), Counter()
  for c in view.ray(RayOptions(max_parallelism=1)).diff(start, end):
    if c.type_.name == "DELETE":
      dels += driver.bag_of_table(c.data, keys)
    else:
      adds += driver.bag_of_table(c.data, fields)
  return dels, adds


def _bag(rows, fields):
  return Counter(freeze_row(r, fields) for r in rows)


def _check(world, chain, d, trace, thorough):
  ds = world.create(os.path.join(d, "src"))
  first = [make_row(world, k) for k in (0, 1, 2, 3)]
  ds.local(driver.OPTIONS["file"]).append_from(
      lambda: iter([world.table(first[:3]), world.table(first[3:])]))
  s = build(ds, world, chain)
  mv = s.view.materialize(os.path.join(d, "mv"))
  loc = mv.storage.location
  loaded = MaterializedView.load(loc)

  # Definition.
  want = describe(s.view)
  if [f[0] for f in want["schema"]] != s.fields or [
      s.schema.field(f).type for f in s.fields] != [
          s.view.schema.field(f).type for f in s.fields]:
    return [violation("view-schema", f"{s.view.schema}, expected {s.schema}",
                      trace)]
  if want["primary_keys"] != s.pk or sorted(want["record_fields"]) != sorted(
      s.rec):
    return [violation("view-fields", f"{want}, expected keys {s.pk}, records "
                      f"{s.rec}", trace)]
  for what, view in (("the created view", mv.view),
                     ("the loaded view", loaded.view)):
    got = describe(view)
    if got != want:
      return [violation("definition", f"{what} has {got}, expected {want}",
                        trace)]
  for what, h in (("created", mv), ("loaded", loaded),
                  ("dataset", loaded.dataset)):
    st = h.storage
    if (st.logical_schema.names != s.fields or st.primary_keys != s.pk
        or sorted(st.record_fields) != sorted(s.rec)):
      return [violation("storage", f"the {what} storage has "
                        f"{st.logical_schema}, {st.primary_keys}, "
                        f"{st.record_fields}", trace)]
  if sorted(mv.storage.metadata.logical_plan.udfs) != sorted(
      loaded.storage.metadata.logical_plan.udfs):
    return [violation("plan", "functions differ", trace)]

  # Rows.
  v = []
  rows = s.fn(first)
  for what, view in (("the view", s.view), ("the loaded view", loaded.view)):
    v = v or driver.expect_bag(f"rows of {what}",
                               lambda: virtual_rows(view, s.fields),
                               _bag(rows, s.fields), trace)
  if v:
    return v

  # Refresh by the loaded view, changes, refresh by a copy loaded later.
  def refresh(m):
    sched.use(sched.Schedule())
    for r in m.ray(RayOptions(max_parallelism=1)).refresh():
      if r.state.name == "FAILED":
        raise RuntimeError(f"refresh failed: {r}")

  def stored():
    return driver.read_bag(Dataset.load(loc), s.fields)

  try:
    refresh(loaded)
    v = driver.expect_bag("stored rows", stored, _bag(rows, s.fields), trace)
    if v:
      return v
    ds.local().upsert(world.table([make_row(world, k, 1) for k in (1, 5)]))
    ds.local().delete(driver.expr.to_arrow(("isin", "k", [2])))
    now = [make_row(world, k, n) for k, n in ((0, 0), (3, 0), (1, 1), (5, 1))]
    if thorough:
      a = diff_rows(s.view, s.fields, s.pk, 1, 3)
      b = diff_rows(loaded.view, s.fields, s.pk, 1, 3)
      if a != b:
        return [violation("diff", f"diff of the view {a}, of the loaded view "
                          f"{b}", trace)]
      adds = _bag(s.fn([make_row(world, k, 1) for k in (1, 5)]), s.fields)
      if a[1] != adds:
        return [violation("diff-rows", driver.diff_msg("diff", a[1], adds),
                          trace)]
    refresh(MaterializedView.load(loc))
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"raised:{type(e).__name__}", exc_str(e), trace)]
  rows = s.fn(now)
  v = driver.expect_bag("stored rows after a refresh", stored,
                        _bag(rows, s.fields), trace)
  v = v or driver.expect_bag(
      "rows of the loaded view after changes",
      lambda: virtual_rows(loaded.view, s.fields, 1), _bag(rows, s.fields),
      trace)
  # Keys and record fields decide how its storage behaves later.
  return v


def _chain_task(item):
  name, chains, thorough = item
  world = WORLDS[name]
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  for chain in chains:
    d = harness.new_dir("p22")
    trace = [name] + list(chain)
    try:
      v = _check(world, chain, d, trace, thorough)
    except Exception as e:  # pylint: disable=broad-except
      v = [violation(f"raised:{type(e).__name__}", exc_str(e), trace)]
    out["violations"] += v
    out["states"] += 1
    out["transitions"] += len(chain) + 4
    harness.rm(d)
    if len(out["violations"]) > 3:
      break
  out["traces"] = out["states"]
  return out


def chains(report, tier):
  n = 3 if tier == "quick" else 4
  items = []
  for name in WORLDS:
    top = n if name == "source" else n - 1
    cs = [c for m in range(0, top + 1)
          for c in itertools.product(TRANSFORMS, repeat=m)]
    items += [(name, cs[i:i + 6], True) for i in range(0, len(cs), 6)]
    report.bump(f"chains_{name}", len(cs))
  # More transforms than a digit counts.
  pairs = [(t, u) for t in TRANSFORMS for u in TRANSFORMS]
  if tier == "quick":
    pairs = [p for i, p in enumerate(pairs) if p[0] == p[1] or i % 3 == 0]
  longest = [(pair * 6)[:11 + i % 2] for i, pair in enumerate(pairs)]
  items += [("source", [c], False) for c in longest]
  for r in harness.pmap(_chain_task, items):
    report.merge(r)
  report.sample({"source": str(S.schema), "chain": list(items[-1][1][-1])})
  report.bounds.append(
      f"all chains of up to {n} of {len(TRANSFORMS)} transforms on a source "
      f"with nested fields, up to {n - 1} on one with a compound key: "
      "definition, rows, diff and refreshes of the view loaded again; "
      f"{len(longest)} chains of 11 or 12 transforms")


# ---------------------------------------------------------- input fields


def _probe(log, batch):
  """Shows the fields and size of its batches in its output."""
  n = len(batch["k"])
  return {"k": batch["k"], "names": [",".join(sorted(batch))] * n, "size": [n] * n}


PROBE = pa.schema([("k", pa.int64()), ("names", pa.string()),
                   ("size", pa.int64())])


def _fields_task(item):
  tier, sels = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  for sel in sels:
    d = harness.new_dir("p22")
    ds = S.create(os.path.join(d, "src"))
    rows = [make_row(S, k) for k in range(5)]
    ds.local().append(S.table(rows))
    for size in (None, 1, 2, 3):
      trace = [list(sel) if sel else sel, size]
      out["states"] += 1
      out["transitions"] += 2
      try:
        view = ds.map_batches(functools.partial(_probe, None), PROBE,
                              input_fields=None if sel is None else list(sel),
                              batch_size=size)
        mv = view.materialize(os.path.join(d, f"mv{size}"))
        loaded = MaterializedView.load(mv.storage.location)
        for what, w in (("view", view), ("loaded view", loaded.view)):
          sched.use(sched.Schedule())
          t = w.ray(RayOptions(max_parallelism=1)).read_all()
          names = set(t.column("names").to_pylist())
          want = ",".join(sorted(sel or S.fields))
          if names != {want}:
            out["violations"].append(violation(
                "input-fields", f"the function of the {what} got {names}, "
                f"expected {want}", trace))
          sizes = Counter(t.column("size").to_pylist())
          limit = size or len(rows)
          if max(sizes) > limit or sum(sizes.values()) != len(rows) or (
              size and sizes[size] < len(rows) // size * size):
            out["violations"].append(violation(
                "batch-size", f"the function of the {what} got batches of "
                f"{sizes}, expected {size}", trace))
      except Exception as e:  # pylint: disable=broad-except
        out["violations"].append(violation(
            f"raised:{type(e).__name__}", exc_str(e), trace))
    # Filters see the selected fields only.
    if sel is not None:
      v = _filter_fields(ds, d, rows, sel)
      out["violations"] += v
    harness.rm(d)
    if len(out["violations"]) > 5:
      break
  out["traces"] = out["states"]
  return out


def _filter_fields(ds, d, rows, sel):
  want = sorted(sel)

  def fn(row):
    return sorted(row) == want and row["k"] != 2

  trace = ["filter", list(sel)]
  view = ds.filter(fn, input_fields=list(sel))
  mv = view.materialize(os.path.join(d, "mvf"))
  loaded = MaterializedView.load(mv.storage.location)
  expected = _bag([r for r in rows if r["k"] != 2], sel)
  for w in (view, loaded.view):
    try:
      sched.use(sched.Schedule())
      t = w.ray(RayOptions(max_parallelism=1)).read_all()
      got = _bag(t.to_pylist(), sel)
    except Exception as e:  # pylint: disable=broad-except
      return [violation(f"raised:{type(e).__name__}", exc_str(e), trace)]
    if got != expected:
      return [violation("filter-fields-rows", driver.diff_msg(
          "filter", got, expected), trace)]
  full = set(sel) == set(S.fields)
  try:
    sched.use(sched.Schedule())
    loaded.ray(RayOptions(max_parallelism=1)).refresh()
  except Exception as e:  # pylint: disable=broad-except
    if not full and isinstance(e, KeyError):
      # Its schema has all fields of the input, its rows only the selected.
      return [violation("filter-input-fields-refresh", exc_str(e), trace)]
    return [violation(f"refresh-raised:{type(e).__name__}", exc_str(e), trace)]
  return driver.expect_bag(
      "stored rows of a filter", lambda: driver.read_bag(
          Dataset.load(loaded.storage.location), list(sel)), expected, trace)


def input_fields(report, tier):
  rest = [f for f in S.fields if f != "k"]
  sels = [None]
  for n in range(0, len(rest) + 1):
    for c in itertools.combinations(rest, n):
      for pos in sorted({0, n}):
        sels.append(c[:pos] + ("k",) + c[pos:])
      if n > 1:
        sels.append(("k",) + c[::-1])
  for r in harness.pmap(_fields_task, [(tier, sels[i:i + 4])
                                       for i in range(0, len(sels), 4)]):
    report.merge(r)
  report.bounds.append(f"{len(sels)} selections and orders of input fields, "
                       "each with 4 batch sizes, of maps and filters")


# --------------------------------------------------------------- rejected


def _rejected_task(_):
  """Definitions that cannot work are refused when they are made."""
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  d = harness.new_dir("p22")
  ds = S.create(os.path.join(d, "src"))
  bases = {"dataset": ds, "filter": ds.filter(_odd_key),
           "map": t_reverse(build(ds, S, [])).view}
  schema = pa.schema([("k", pa.int64()), ("a", pa.float64())])
  cases = {
      "keys not read": lambda b: b.map_batches(
          _odd_key, schema, input_fields=["a"]),
      "keys not read by filter": lambda b: b.filter(_odd_key,
                                                    input_fields=["a"]),
      "unknown input field": lambda b: b.map_batches(
          _odd_key, schema, input_fields=["k", "nope"]),
      "unknown input field of filter": lambda b: b.filter(
          _odd_key, input_fields=["k", "nope"]),
      "keys not written": lambda b: b.map_batches(
          _odd_key, pa.schema([("a", pa.float64())])),
      "unknown record field": lambda b: b.map_batches(
          _odd_key, schema, output_record_fields=["nope"]),
      "fields of a view": lambda b: list(b.ray().read(fields=["k"])),
  }
  for (bn, b), (cn, fn) in itertools.product(bases.items(), cases.items()):
    if bn == "dataset" and cn == "fields of a view":
      continue
    out["transitions"] += 1
    out["states"] += 1
    try:
      fn(b)
      what = "was accepted"
    except errors.UserInputError:
      continue
    except Exception as e:  # pylint: disable=broad-except
      what = f"raised {exc_str(e)}"
    out["violations"].append(violation(f"not-refused:{cn}", f"{cn} {what}",
                                       [bn, cn]))
  harness.rm(d)
  out["traces"] = out["states"]
  return out


# ------------------------------------------------- other places, processes

_CHILD = r"""
import json, logging, sys
logging.disable(logging.CRITICAL)
from space import RayOptions
from space.core.views import MaterializedView
mv = MaterializedView.load(sys.argv[1])
if sys.argv[2] == "refresh":
  mv.ray(RayOptions(max_parallelism=1)).refresh()
t = mv.view.ray(RayOptions(max_parallelism=1)).read_all()
s = mv.dataset.local().read_all()
ids = lambda t, f: sorted(t.column(f).to_pylist()) if t is not None else None
print("RESULT " + json.dumps({
    "fields": mv.view.schema.names, "virtual": ids(t, "k"),
    "stored": ids(s, "k"), "keys": mv.view.primary_keys,
    "records": sorted(mv.view.record_fields)}))
sys.stdout.flush()
import os
os._exit(0)
"""


def _local_functions(ds):
  """Functions that only exist here."""
  offset = 1

  def is_small(row):
    return row["k"] + offset < 4

  def keep(batch):
    return {f: batch[f] for f in ("r", "k")}

  return ds.filter(is_small).map_batches(
      keep, pa.schema([("r", pa.binary()), ("k", pa.int64())]),
      input_fields=["k", "r"], output_record_fields=["r"])


def _place_task(mode):
  """Loading after a move or copy, from elsewhere, in another process."""
  out = {"violations": [], "counts": {}, "transitions": 1, "states": 1,
         "traces": 1}
  d = harness.new_dir("p22")
  os.makedirs(d)
  here = os.getcwd()
  trace = [mode]
  try:
    rel = "relative" in mode
    if rel:
      os.chdir(d)
    base = "" if rel else d + "/"
    ds = S.create(base + "src")
    ds.local().append(S.table([make_row(S, k) for k in range(6)]))
    # Pickled by value: the child cannot import this module.
    cloudpickle.register_pickle_by_value(sys.modules[__name__])
    try:
      _local_functions(ds).materialize(
          base + ("mv/" if "slash" in mode else "mv"))
    finally:
      cloudpickle.unregister_pickle_by_value(sys.modules[__name__])
    loc = base + "mv"
    if "move" in mode:
      os.rename(os.path.join(d, "mv"), os.path.join(d, "elsewhere"))
      loc = base + "elsewhere"
    if "copy" in mode:
      shutil.copytree(os.path.join(d, "mv"), os.path.join(d, "copied"))
      shutil.rmtree(os.path.join(d, "mv", "metadata", "udfs"))
      loc = base + "copied"
    want = {"fields": ["r", "k"], "virtual": [0, 1, 2], "stored": [0, 1, 2],
            "keys": ["k"], "records": ["r"]}
    if "process" in mode:
      env = dict(os.environ)
      env["PYTHONPATH"] = os.pathsep.join(
          p for p in env["PYTHONPATH"].split(os.pathsep)
          if p != harness.VERIF)
      r = subprocess.run([sys.executable, "-c", _CHILD, loc, "refresh"],
                         env=env, capture_output=True, text=True, timeout=120,
                         cwd=d, check=False)
      lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
      got = json.loads(lines[0][7:]) if lines else r.stderr[-600:]
    else:
      m = MaterializedView.load(loc)
      sched.use(sched.Schedule())
      m.ray(RayOptions(max_parallelism=1)).refresh()
      sched.use(sched.Schedule())
      t = m.view.ray(RayOptions(max_parallelism=1)).read_all()
      st = m.dataset.local().read_all()
      got = {"fields": m.view.schema.names,
             "virtual": sorted(t.column("k").to_pylist()),
             "stored": sorted(st.column("k").to_pylist()),
             "keys": m.view.primary_keys,
             "records": sorted(m.view.record_fields)}
    if got != want:
      out["violations"].append(violation(
          "elsewhere", f"got {got}, expected {want}", trace))
  except Exception as e:  # pylint: disable=broad-except
    out["violations"].append(violation(
        f"raised:{type(e).__name__}", exc_str(e), trace))
  finally:
    os.chdir(here)
  harness.rm(d)
  return out


PLACES = ["same", "slash", "move", "copy", "relative", "relative+move",
          "process", "process+move", "process+copy", "process+relative"]


def run(report, tier):
  chains(report, tier)
  input_fields(report, tier)
  for r in harness.pmap(_rejected_task, [None]):
    report.merge(r)
  for r in harness.pmap(_place_task, PLACES):
    report.merge(r)
  report.bounds.append("views moved, copied, at relative places, loaded by "
                       "another process; definitions that must be refused")
  report.assumptions += [
      "functions work on rows independently, keep the primary keys and can be "
      "pickled; sources stay where they are",
      "Ray itself is not installed: /verif/raystub executes the remote calls"]
