"""P24: stored files are never changed, and reading changes nothing."""

import gc
import os

import pyarrow as pa
import pyarrow.compute as pc

from mc import driver, harness, history, sched, shim
from mc.driver import World
from mc.harness import exc_str, violation
from checks import long
from checks.p05 import load_op

from space import Dataset, DirCatalog, RayOptions
from space.core.random_access import RandomAccessDataSource
from space.core.utils import errors
from space.core.views import load_materialized_view

W = World("rec", [("k", pa.int64()), ("r", pa.binary()), ("v", pa.string())],
          ["k"], ["r"])
PLAIN = World("plain", [("k", pa.int64()), ("v", pa.string())], ["k"])


def row(w, k, x):
  return (w.row(k, b"r" + x.encode(), x) if w.rec else w.row(k, x))


def alphabet(w, ray):
  r = lambda k, x: row(w, k, x)
  o = (lambda x: f"ray2:{x}") if ray else (lambda x: x)
  return [
      ("append", [r(1, "a"), r(2, "a")], o("default")),
      ("append_from", [[r(3, "b")], [r(4, "b"), r(1, "b")]], o("filear")),
      ("append", [], o("default")),
      ("insert", [r(5, "c"), r(6, "c")], o("file")),
      ("upsert", [r(1, "d"), r(5, "d"), r(8, "d")], o("rgar")),
      ("delete", ("cmp", "==", "k", 1), o("default")),
      ("delete", ("cmp", ">", "k", 2), o("file")),
      ("delete", ("cmp", ">", "k", 0), o("default")),
      load_op(w, "yz"),
      ("tag", "t1"), ("untag", "t1"), ("branch", "b1"), ("unbranch", "b1"),
      ("checkout", "b1"), ("checkout", "main"),
  ]


class Files:
  """What exists below a directory, with the rules of the property."""

  def __init__(self, base):
    self.base = base
    tree = shim.Tree.read(base).nodes
    self.files = {p for p, v in tree.items() if v is not None}
    self.dirs = {p for p, v in tree.items() if v is None}

  def judge(self, effects, inside):
    """The first broken rule, and the existing files that were replaced."""
    new, newdirs, replaced = set(), set(), set()
    for kind, path, arg, _ in effects:
      for p in [path] + ([arg] if kind in "rl" else []):
        if p != inside and not p.startswith(inside + os.sep):
          return f"{kind} {p}: not below {inside}", replaced
      if kind == "c":
        if path not in new and path in self.files:
          return f"the existing file {path} was opened for writing", replaced
        new.add(path)
      elif kind in ("w", "t"):
        if path not in new:
          return f"the existing file {path} was changed in place", replaced
      elif kind == "r":
        if path not in new:
          return f"the existing {path} was renamed to {arg}", replaced
        new.discard(path)
        if arg in self.files:
          replaced.add(arg)
        self.files.add(arg)
      elif kind == "l":
        if arg in self.files:
          return f"the existing file {arg} was replaced by a link", replaced
        self.files.add(arg)
      elif kind == "u":
        if path not in new:
          return f"the existing file {path} was removed", replaced
        new.discard(path)
      elif kind == "R":
        if path not in newdirs:
          return f"the directory {path} was removed", replaced
      elif kind == "m":
        newdirs.add(path)
      else:
        return f"unknown effect {kind}", replaced
    if len(replaced) > 1:
      return f"existing files were replaced: {sorted(replaced)}", replaced
    return None, replaced


class Watch:
  """with Watch(base) as w: ...; then w.effects."""

  def __init__(self, base):
    self.base, self.file = base, harness.new_dir("journal")

  def __enter__(self):
    shim.root(self.base)
    shim.journal(self.file)
    return self

  def __exit__(self, *exc):
    # Writers that a failed operation left open are closed here, not later.
    sched.use(sched.Schedule())
    gc.collect()
    shim.journal_stop()
    self.effects = shim.parse(self.file, self.base)
    os.unlink(self.file)
    return False


class Watched(long.Hook):
  """The rules, for each action of a long history."""

  def __init__(self, base):
    super().__init__(base)
    gc.freeze()

  def run(self, op, trace, counts, fn):
    files = Files(self.base)
    with Watch(self.base) as watch:
      result = fn()
    bad, _ = files.judge(watch.effects, "ds")
    counts["effects"] = counts.get("effects", 0) + len(watch.effects)
    if bad:
      return [violation(f"changed:{op[0]}", f"{op[0]}: {bad}", trace)], result
    return [], result


def table_(t):
  return None if t is None else t.num_rows


def drain(it):
  return sum(getattr(x, "data", x) is not None for x in it)


def readings(loc, w, model, branch):
  """All ways of reading: [(name, fn)]."""
  def ds():
    d = Dataset.load(loc)
    if branch != "main":
      d.set_current_branch(branch)
    return d

  f = pc.field("k") > 1
  tags = [n for n, (k, _) in model.refs.items()]
  ids = sorted(model.snaps)
  out = [
      ("load", ds),
      ("read", lambda: drain(ds().local().read())),
      ("read filter", lambda: drain(ds().local().read(f, fields=["v", "k"],
                                                      batch_size=1))),
      ("read_all", lambda: table_(ds().local().read_all(version=ids[0]))),
      ("references", lambda: drain(ds().local().read(reference_read=True))),
      ("diff", lambda: drain(ds().local().diff(0, ids[-1]))),
      ("versions", lambda: ds().versions()),
      ("index_files", lambda: ds().index_files()),
      ("unknown version", lambda: drain(ds().local().read(version="nope"))),
      ("schema", lambda: (ds().schema, ds().primary_keys, ds().record_fields,
                          ds().serializer(), ds().storage.snapshot_ids)),
  ]
  out += [(f"version {t}", lambda t=t: drain(ds().local().read(version=t)))
          for t in tags]

  def ray(fn):
    def run():
      sched.use(sched.Schedule())
      return fn(ds())
    return run

  out += [
      ("ray read", ray(lambda d: drain(d.ray(RayOptions(
          max_parallelism=2)).read()))),
      ("ray diff", ray(lambda d: drain(d.ray().diff(0, ids[-1])))),
      ("ray dataset", ray(lambda d: d.ray_dataset().count())),
      ("view", ray(lambda d: drain(d.filter(lambda r: r["k"] > 1).ray(
          RayOptions(max_parallelism=2)).read()))),
      ("mapped", ray(lambda d: drain(d.map_batches(
          lambda b: b, output_schema=w.schema,
          output_record_fields=list(w.rec)).ray().read()))),
      ("join", ray(lambda d: drain(d.join(
          d, keys=["k"], left_fields=["k", "v"], right_fields=["k"]).ray(
          ).read()))),
  ]
  if w.rec:
    def access(native):
      src = RandomAccessDataSource({"r": loc},
                                   use_array_record_data_source=native)
      return [src[i] for i in range(len(src))]
    out += [("random access", lambda: access(True)),
            ("random access 2", lambda: access(False))]
  return out


def read_all_ways(base, loc, w, model, branch, trace, counts, part):
  for i, (name, fn) in enumerate(readings(loc, w, model, branch)):
    if part is not None and i % 4 != part % 4:
      continue
    with Watch(base) as watch:
      try:
        fn()
      except Exception:  # pylint: disable=broad-except
        pass  # Also rejected reads must leave everything alone.
    counts["reads"] = counts.get("reads", 0) + 1
    if watch.effects:
      return [violation("read-writes", f"{name}: {watch.effects[0][:2]} and "
                        f"{len(watch.effects) - 1} more", trace)]
  return []


def _task(item):
  gc.freeze()
  w, ray, prefix, tier = item
  out = {"violations": [], "states": 0, "transitions": 0, "traces": 0,
         "counts": {}, "replaced": []}
  base = harness.new_dir("imm")
  os.makedirs(base)
  loc = os.path.join(base, "ds")
  try:
    ds, model, branch = history.replay(w, loc, prefix)
  except Exception:  # pylint: disable=broad-except
    ds = None
  gc.collect()
  if ds is None:  # reported by P01
    harness.rm(base)
    return out
  for n, op in enumerate(alphabet(w, ray)):
    b2 = harness.new_dir("imm2")
    driver.copy_tree(base, b2)
    loc2 = os.path.join(b2, "ds")
    trace = [history.show(w, a) for a in prefix + (op,)] + ["ray" if ray else
                                                           "local"]
    m = model.copy()
    d = Dataset.load(loc2)
    if branch != "main":
      d.set_current_branch(branch)
    files = Files(b2)
    with Watch(b2) as watch:
      v, state, b = history.act(d, w, m, op, trace, branch)
    out["transitions"] += 1
    c = out["counts"]
    c["effects"] = c.get("effects", 0) + len(watch.effects)
    bad, replaced = files.judge(watch.effects, "ds")
    out["replaced"] += sorted(replaced)
    if v:
      out["violations"] += v
    elif bad:
      out["violations"].append(violation(
          f"changed:{op[0]}", f"{op[0]} ({state}): {bad}", trace))
    else:
      out["states"] += 1
      part = None if tier != "quick" or not prefix else n + len(prefix)
      out["violations"] += read_all_ways(b2, loc2, w, m, b, trace, c, part)
    harness.rm(b2)
  # Rejected operations leave files behind at most.
  for name, fn in rejected(w, ray):
    d = Dataset.load(loc)
    if branch != "main":
      d.set_current_branch(branch)
    files = Files(base)
    with Watch(base) as watch:
      try:
        fn(d)
      except Exception:  # pylint: disable=broad-except
        pass
    out["transitions"] += 1
    bad, replaced = files.judge(watch.effects, "ds")
    if bad or replaced:
      out["violations"].append(violation(
          f"changed:{name}", f"{name}: {bad or replaced}",
          [history.show(w, a) for a in prefix] + ["ray" if ray else "local"]))
  # Creating over what exists.
  files = Files(base)
  with Watch(base) as watch:
    try:
      w.create(loc)
    except Exception:  # pylint: disable=broad-except
      pass
  bad, replaced = files.judge(watch.effects, "ds")
  if bad or replaced:
    out["violations"].append(violation(
        "changed:create", f"creation over a dataset: {bad or replaced}",
        [history.show(w, a) for a in prefix]))
  harness.rm(base)
  return out


def boom(*args):
  raise ZeroDivisionError()


def rejected(w, ray):
  def failing(n):
    for i in range(n):
      yield w.table([row(w, 90 + i, "x")])
    boom()

  r = lambda d: driver.make_runner(d, "ray2:filear" if ray else "filear")
  t = w.table([row(w, 91, "x"), row(w, 92, "x")])
  return [
      ("iterator-fails", lambda d: r(d).append_from(lambda: failing(2))),
      ("second-source-fails", lambda d: r(d).append_from(
          [lambda: iter([t]), lambda: failing(1)])),
      ("wrong-type", lambda d: r(d).append(t.set_column(
          t.schema.get_field_index("k"), "k", pa.array(["a", "b"])))),
      ("missing-field", lambda d: r(d).upsert(t.drop(["v"]))),
      ("repeated-key", lambda d: r(d).insert(pa.concat_tables([t, t]))),
      ("unknown-field", lambda d: r(d).delete(pc.field("nope") == 1)),
      ("load-fails", lambda d: r(d).append_array_record(
          load_op(W, "yz")[3].directory() + "/*", boom)),
      ("bad-references", lambda d: [_try(f) for f in (
          lambda: d.add_tag("main"), lambda: d.add_tag("x", 99),
          lambda: d.remove_tag("nope"), lambda: d.remove_branch("nope"),
          lambda: d.set_current_branch("nope"), lambda: d.add_branch(""))]),
  ]


def _try(fn):
  try:
    fn()
  except Exception:  # pylint: disable=broad-except
    pass


def useful(prefix, w):
  """Whether the first actions of a history have any effect."""
  m, branch = w.model(), "main"
  for op in prefix:
    if not history.is_ref(op):
      return op[0] not in ("delete",) and bool(op[1])
    want, branch = history.model_ref(m, op, branch)
    if want != history.OK:
      return False
  return True


# ------------------------------------------------------------------- views


def _views(item):
  seq, kind = item
  out = {"violations": [], "states": 0, "transitions": 0, "traces": 0,
         "counts": {}, "replaced": []}
  base = harness.new_dir("immv")
  os.makedirs(base)
  cat = DirCatalog(os.path.join(base, "cat"))
  ds = cat.create_dataset("src", PLAIN.schema, ["k"], [])
  view = (ds.filter(_odd) if kind == "filter" else
          ds.map_batches(_plus, output_schema=PLAIN.schema,
                         output_record_fields=[]))
  ds.local().append(PLAIN.table([row(PLAIN, 1, "a"), row(PLAIN, 2, "a")]))
  sched.use(sched.Schedule())
  mv_loc = os.path.join(base, "cat", "mv")
  trace = [kind]

  def call(name, inside, fn):
    files = Files(base)
    with Watch(base) as watch:
      try:
        fn()
      except errors.UserInputError:  # nothing to refresh
        pass
      except Exception as e:  # pylint: disable=broad-except
        out["violations"].append(violation(f"view-raised:{name}", exc_str(e),
                                           trace + [name]))
    out["transitions"] += 1
    if inside is None:
      if watch.effects:
        out["violations"].append(violation(
            "read-writes", f"{name}: {watch.effects[0][:2]}", trace + [name]))
      return
    bad, replaced = files.judge(watch.effects, inside)
    if bad:
      out["violations"].append(violation(f"changed:{name}", f"{name}: {bad}",
                                         trace + [name]))
    out["replaced"] += [os.path.relpath(p, inside) for p in replaced]

  call("materialize", "cat/mv", lambda: cat.materialize("mv", view))
  for name in seq:
    src = lambda: cat.dataset("src")
    mv = lambda: load_materialized_view(cat.dataset("mv").storage)
    opts = RayOptions(max_parallelism=2)
    ops = {
        "append": lambda: src().local().append(PLAIN.table(
            [row(PLAIN, 3, "b"), row(PLAIN, 4, "b")])),
        "upsert": lambda: src().local().upsert(PLAIN.table(
            [row(PLAIN, 1, "c")])),
        "delete": lambda: src().local().delete(pc.field("k") > 1),
        "refresh": lambda: mv().ray(opts).refresh(),
    }
    call(name, "cat/mv" if name == "refresh" else "cat/src", ops[name])
    trace.append(name)
    call("read mv", None, lambda: drain(mv().ray(opts).read()))
    call("read mv local", None, lambda: drain(mv().local().read()))
    call("read view", None, lambda: drain(mv().view.ray(opts).read()))
    call("diff view", None, lambda: drain(mv().view.ray(opts).diff(0, 1)))
    call("catalog", None, lambda: (cat.datasets(), cat.dataset("mv")))
  assert os.path.isdir(mv_loc)
  out["states"] = 1
  harness.rm(base)
  return out


def _odd(r):
  return r["k"] % 2 == 1


def _plus(b):
  return {"k": b["k"] + 10, "v": b["v"]}


def run(report, tier):
  depth = 1 if tier == "quick" else 2
  items = []
  for w in (W, PLAIN):
    for ray in (False, True):
      ops = alphabet(w, ray)
      prefixes = [()] + [(a,) for a in ops]
      for _ in range(depth):
        prefixes += [p + (a,) for p in prefixes for a in ops]
      prefixes = [p for p in dict.fromkeys(map(_Key, prefixes))]
      items += [(w, ray, p.ops, tier) for p in prefixes
                if useful(p.ops, w) and (tier != "quick" or not ray or
                                         len(p.ops) < 2 or w is W)]
  replaced = set()
  for r in harness.pmap(_task, items, chunksize=2):
    replaced |= {os.path.relpath(p, "ds") for p in r.pop("replaced", [])}
    report.merge(r)
  n = 2 if tier == "quick" else 4
  names = ["append", "upsert", "delete", "refresh"]
  seqs = [()]
  for _ in range(n):
    seqs += [s + (x,) for s in seqs for x in names]
  for r in harness.pmap(_views, [(s, k) for s in sorted(set(seqs)) for k in
                                 ("filter", "map") if len(s) == n]):
    replaced |= set(r.pop("replaced", []))
    report.merge(r)
  if len(replaced) > 1:
    report.violate(violation(
        "replaced", f"more than one file is replaced: {sorted(replaced)}", []))
  long.add(report, tier, long.DATA + long.REFS, (), Watched)
  report.traces = report.transitions
  report.sample({"replaced files": sorted(replaced)})
  report.bounds.append(
      f"all histories of {depth + 2} operations of an alphabet of 15 in two "
      "worlds, local and distributed: every file system effect of the last "
      "operation, and of each way of reading afterwards; all sequences of "
      f"{n} source operations and refreshes of two materialized views")
  report.assumptions.append(
      "file system effects below the directory of the dataset and its siblings "
      "are seen; one file of a dataset, the entry point, may be replaced, by a "
      "rename")


class _Key:
  """Operations hold objects which have no order or hash of their own."""

  def __init__(self, ops):
    self.ops = ops

  def __hash__(self):
    return hash(str(self.ops))

  def __eq__(self, other):
    return str(self.ops) == str(other.ops)
