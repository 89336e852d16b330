"""P05: crash atomicity at every file system effect of every operation."""

import os

import pyarrow as pa
import pyarrow.parquet as pq
from array_record.python import array_record_module as ar

from mc import driver, harness, history, shim
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED

from checks import long

from space import Dataset

CREATE = ("create",)
_CTX = {}


def index_fn(record):
  x = record["r"][0].decode()
  return {"k": ord(x[1]), "v": x[1:]}


class Load:
  """Loading of external files, which every process makes for itself."""

  def __init__(self, world, batches):
    self.world, self.batches = world, batches
    self.pattern = f"{len(batches)} {'ArrayRecord' if world.rec else 'Parquet'}"

  def directory(self):
    d = os.path.join(harness.scratch_root(),
                     f"ext{os.getpid()}_{self.world.name}{len(self.batches)}")
    if not os.path.exists(d):
      os.makedirs(d)
      for i, rows in enumerate(self.batches):
        if self.world.rec:
          w = ar.ArrayRecordWriter(f"{d}/x{i}", "group_size:1")
          for r in rows:
            w.write(r["r"])
          w.close()
        else:
          pq.write_table(self.world.table(rows), f"{d}/x{i}")
    return d

  def load(self, runner):
    d = self.directory()
    if self.world.rec:
      return runner.append_array_record(d + "/*", index_fn)
    return runner.append_parquet(d + "/*")


def load_op(w, keys):
  """An external file per key."""
  if w.rec:
    batches = [[w.row(ord(k), b"r" + k.encode(), k)] for k in keys]
  else:
    batches = [[w.row(ord(k), k)] for k in keys]
  return ("load", [r for b in batches for r in b], "file", Load(w, batches))


def worlds():
  """Scenarios: (world, history, operations after it)."""
  w = World("rec", [("k", pa.int64()), ("r", pa.binary()),
                    ("v", pa.string())], ["k"], ["r"])
  plain = World("plain", [("k", pa.int64()), ("v", pa.string())], ["k"])

  def r(k, x):
    return w.row(k, b"r" + x.encode(), x)

  empty = ()
  one = (("append", [r(1, "a"), r(2, "a")], "default"),)
  many = (("append_from", [[r(1, "a"), r(2, "a")], [r(3, "b")], [r(4, "b")]],
           "file"), ("tag", "t1"), ("upsert", [r(3, "c"), r(5, "c")], "ar"),
          ("branch", "b1"))
  onbranch = many + (("checkout", "b1"),
                     ("append", [r(7, "d")], "default"))
  data = [
      ("append", [r(6, "x")], "default"),
      ("append_from", [[r(6, "x")], [r(7, "x"), r(8, "x")]], "filear"),
      ("insert", [r(9, "x"), r(8, "x")], "default"),
      ("upsert", [r(1, "x"), r(9, "x")], "file"),
      ("delete", ("cmp", "==", "k", 1), "default"),
      ("delete", ("cmp", ">", "k", 0), "default"),
      load_op(w, "yz"),
  ]
  refs = [("tag", "t2"), ("branch", "b2")]
  scenarios = [(w, (), [CREATE])]
  scenarios += [(w, one, data + refs), (w, many, data + refs +
                                        [("untag", "t1"), ("unbranch", "b1")]),
                (w, onbranch, data)]
  scenarios += [(w, empty, data[:2] + refs[:1])]
  scenarios += [(plain, (("append", [plain.row(1, "a"), plain.row(2, "a")],
                          "rg"),),
                 [load_op(plain, "yz"),
                  ("upsert", [plain.row(1, "x"), plain.row(9, "x")], "file")])]
  return scenarios


def long_worlds(tier):
  """The same after more versions and references than a digit counts."""
  words = ("FU", "AT") if tier == "quick" else ("FU", "AT", "UBC", "FDO", "AR")
  out = []
  for word in words:
    prefix = long.expand(word, 14 if tier == "quick" else 20)
    ops = [("append", [long.row(60, 99)], "default"),
           ("upsert", [long.row(1, 98), long.row(60, 98)], "file"),
           ("delete", ("cmp", ">", "k", 1), "default"), ("tag", "new")]
    out.append((long.W, prefix, ops))
  return out


def follow_ups(world, rows):
  """Operations tried after recovery: each must have its normal effect."""
  r = lambda k, x: (world.row(k, b"f" + x.encode(), x) if world.rec else
                    world.row(k, x))
  return [("append", [r(50, "f")], "default"),
          ("upsert", [r(1, "g"), r(51, "g")], "file"),
          ("delete", ("cmp", "<=", "k", 2), "default")]


def record(world, prefix, op):
  """Run `op` after `prefix`, journaling its effects."""
  base = harness.new_dir("base")
  os.makedirs(base)
  loc = os.path.join(base, "ds")
  jf = harness.new_dir("journal")
  shim.root(base)
  if op == CREATE:
    before_tree = shim.Tree.read(base)
    shim.journal(jf)
    world.create(loc)
    shim.journal_stop()
    m0, m1, branch = None, world.model(), "main"
    state = SUCCEEDED
  else:
    ds, m0, branch = history.replay(world, loc, prefix)
    before_tree = shim.Tree.read(base)
    m1 = m0.copy()
    shim.journal(jf)
    v, state, _ = history.act(ds, world, m1, op, [], branch)
    shim.journal_stop()
    if v:
      raise RuntimeError(f"operation failed while recording: {v}")
  effects = shim.parse(jf, base)
  # The journal is complete: replaying all of it gives the directory left by
  # the real execution.
  t = shim.Tree(before_tree.nodes)
  for e in effects:
    t.apply(e)
  if t.nodes != shim.Tree.read(base).nodes:
    raise RuntimeError(f"journal of {op} does not reproduce the directory")
  harness.rm(base)
  os.unlink(jf)
  return before_tree, effects, m0, m1, branch


def observe(ds, world, model, branch, trace, light=False):
  if branch != "main":
    try:
      ds.set_current_branch(branch)
    except Exception as e:  # pylint: disable=broad-except
      return [violation("recovery:checkout", exc_str(e), trace)]
  return (history.check_versions_listed(ds, model, trace) or
          history.check_all_versions(ds, world, model, trace, branch) or
          ([] if light or len(model.snaps) > 8 and not _CTX.get("deep") else
           history.check_diffs(ds, world, model, trace, {})))


def check_point(world, tree, m0, m1, branch, op, trace, follow):
  """Recover a crash state and judge it."""
  base = harness.new_dir("rec")
  tree.write(base)
  loc = os.path.join(base, "ds")
  outcome = None
  try:
    try:
      ds = Dataset.load(loc)
    except Exception as e:  # pylint: disable=broad-except
      if m0 is not None:
        return "broken", [violation("recovery:load", exc_str(e), trace)]
      # Creation was interrupted: it can be repeated.
      try:
        ds = world.create(loc)
      except Exception as e2:  # pylint: disable=broad-except
        return "broken", [violation("recovery:create", exc_str(e2), trace)]
      outcome, model = "before", world.model()
      v = observe(ds, world, model, branch, trace)
      if v:
        return "broken", v
    else:
      if m0 is None:
        outcome, model = "after", m1
        v = observe(ds, world, m1, branch, trace)
      else:
        v0 = observe(ds, world, m0, branch, trace)
        outcome, model, v = "before", m0, v0
        if v0:
          v = observe(Dataset.load(loc), world, m1, branch, trace)
          outcome, model = "after", m1
          if v:
            v = [violation("recovery:state", "neither the state before "
                           f"({v0[0]['msg']}) nor after ({v[0]['msg']})",
                           trace)]
      if v:
        return "broken", v
    if follow is not None:
      ds = Dataset.load(loc)
      if branch != "main":
        ds.set_current_branch(branch)
      m = model.copy()
      t = trace + [driver.show_op(world, follow)]
      v, _, _ = history.act(ds, world, m, follow, t, branch)
      v = v or observe(Dataset.load(loc), world, m, branch, t,
                       not _CTX["deep"])
      if v:
        v[0]["sig"] = "follow-up:" + v[0]["sig"]
        return outcome, v
    return outcome, []
  finally:
    harness.rm(base)


def _task(item):
  world, prefix, op, part, parts, deep = item
  out = {"violations": [], "states": 0, "transitions": 0, "counts": {},
         "traces": 0}
  before, effects, m0, m1, branch = record(world, prefix, op)
  points = []
  for i in range(len(effects) + 1):
    points.append((i, None))
    if i < len(effects):
      for e in shim.torn(effects[i], (1, 2, 3) if deep else (2,)):
        points.append((i, e))
  follows = follow_ups(world, None)
  base_trace = [history.show(world, a) if a != CREATE else ["create"]
                for a in prefix]
  shown = ["create"] if op == CREATE else history.show(world, op)
  last = None
  tree, done = shim.Tree(before.nodes), 0
  for n, (i, partial) in enumerate(points):
    if n % parts != part:
      continue
    while done < i:
      tree.apply(effects[done])
      done += 1
    t = shim.Tree(tree.nodes)
    if partial:
      t.apply(partial)
    what = "end" if i == len(effects) else (
        f"{effects[i][0]} {effects[i][1].split('/')[-1][:12]}"
        + (f" torn at {len(partial[2])}" if partial else ""))
    trace = base_trace + [shown, f"crash before effect {i}/{len(effects)} "
                          f"({what})"]
    if deep:
      todo = follows
    elif partial:
      todo = [None]
    else:
      todo = [follows[i % len(follows)]]
    for f in todo:
      outcome, v = check_point(world, t, m0, m1, branch, op, trace, f)
      out["transitions"] += 1
      out["violations"] += v
    out["states"] += 1
    c = out["counts"]
    key = f"recovered_{outcome}"
    c[key] = c.get(key, 0) + 1
    # Once the new state is visible it stays visible.
    if partial is None:
      if last == "after" and outcome == "before":
        out["violations"].append(violation(
            "recovery:flip", "a later crash point shows the older state",
            trace))
      last = outcome
    if i == len(effects) and outcome != "after" and m0 is not None and \
        history.model_versions(m0) != history.model_versions(m1):
      out["violations"].append(violation(
          "recovery:lost", "the completed operation is not visible", trace))
  if part == 0:
    out["traces"] = 1
    out["counts"]["effects"] = len(effects)
    out["samples"] = [{"prefix": base_trace, "op": shown,
                       "effects": [f"{e[0]} {e[1]}" for e in effects][:12]}]
  return out


def run(report, tier):
  deep = _CTX["deep"] = tier != "quick"
  items = []
  for w, prefix, ops in worlds() + long_worlds(tier):
    for op in ops:
      for part in range(4):
        items.append((w, prefix, op, part, 4, deep))
  for r in harness.pmap(_task, items):
    report.merge(r)
  report.bump("operations", len(items) // 4)
  report.bounds.append(
      "every prefix of the effects of each operation, and each write cut to "
      + ("1 byte, half and all but one byte; each followed by each of 3 "
         "operations" if deep else "half; each complete prefix followed by "
         "one (rotating) of 3 operations"))
  report.assumptions += [
      "process crash: completed system calls persist in their order",
      "a rename is atomic (POSIX)"]
  report.bounds.append("the same for 4 operations after long histories of 14 "
                       "(thorough: 20) actions")
