"""P07: real processes on one dataset under all relevant schedules."""

import os

import pyarrow as pa

from mc import dpor, driver, harness, history, shim
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import FAILED, SKIPPED, SUCCEEDED

from space import Dataset
from space.core.utils import errors

_CTX = {}


def world():
  return World("rec", [("k", pa.int64()), ("r", pa.binary()),
                       ("v", pa.string())], ["k"], ["r"])


W = world()


def row(k, x):
  return W.row(k, b"r" + x.encode(), x)


BASE = (("append_from", [[row(1, "a"), row(2, "a")], [row(3, "b")]], "file"),
        ("branch", "b1"), ("append", [row(4, "c")], "default"),
        ("tag", "t1"))

# Actions by name; each is executed on the handle of its process.
ACTIONS = {
    "append": ("append", [row(5, "x")], "default"),
    "append2": ("append", [row(6, "y")], "ar"),
    "append3": ("append", [row(7, "z")], "default"),
    "insert": ("insert", [row(5, "i")], "default"),
    "upsert": ("upsert", [row(1, "u"), row(5, "u")], "default"),
    "upsert2": ("upsert", [row(1, "w"), row(3, "w")], "file"),
    "delete": ("delete", ("cmp", "==", "k", 1), "default"),
    "delete2": ("delete", ("cmp", "<=", "k", 2), "default"),
    "nothing": ("delete", ("cmp", ">", "k", 100), "default"),
    "tag": ("tag", "t2"),
    "tag3": ("tag", "t3"),
    "branch": ("branch", "b2"),
    "untag": ("untag", "t1"),
    "unbranch": ("unbranch", "b1"),
    "read": ("read",),
    "readt1": ("read", "t1"),
    "readb1": ("read", "b1"),
    "read0": ("read", 1),
    "load": ("load",),
    "create": ("create",),
}


def scenarios(tier):
  """(name, base exists, [(branch, late, [actions])])."""
  m = lambda *a: ("main", False, list(a))
  b = lambda *a: ("b1", False, list(a))
  late = lambda *a: ("main", True, list(a))
  out = []
  pairs = [
      ("append", "append2"), ("append", "upsert"), ("upsert", "upsert2"),
      ("insert", "upsert"), ("insert", "insert"), ("delete", "upsert2"),
      ("delete", "delete2"), ("delete", "delete"), ("append", "delete2"),
      ("append", "tag"), ("tag", "tag"), ("tag", "tag3"),
      ("upsert", "branch"), ("delete", "untag"), ("nothing", "append"),
      ("nothing", "delete"), ("untag", "untag"), ("tag", "unbranch"),
  ]
  for x, y in pairs:
    out.append((f"{x}|{y}", True, [m(x), m(y)]))
  for x, y in (("append", "append2"), ("upsert", "delete"),
               ("delete", "upsert2"), ("upsert", "upsert2")):
    out.append((f"{x}|{y}@b1", True, [m(x), b(y)]))
  out += [
      ("append@b1|append2@b1", True, [b("append"), b("append2")]),
      ("append@b1|unbranch", True, [b("append"), m("unbranch")]),
      ("late append|upsert", True, [late("append2"), m("upsert")]),
      ("append,append3|append2", True, [m("append", "append3"),
                                        m("append2")]),
      ("append,read|delete2", True, [m("append", "read"), m("delete2")]),
  ]
  for x in ("append", "upsert2", "delete", "tag", "unbranch"):
    out.append((f"{x}|read,read", True, [m(x), m("read", "read")]))
    out.append((f"{x}|load,readt1", True, [m(x), late("load", "readt1")]))
  out += [
      ("append@b1|readb1,read", True, [b("append"), m("readb1", "read")]),
      ("untag|readt1", True, [m("untag"), m("readt1")]),
      ("upsert|read0", True, [m("upsert"), m("read0", "readt1")]),
      ("create|create", False, [late("create"), late("create")]),
      ("create|load", False, [late("create"), late("load")]),
      ("create,append|create", False, [late("create", "append"),
                                       late("create")]),
      ("upsert|delete|read,read", True, [m("upsert"), m("delete"),
                                         m("read", "read")]),
      ("append|tag|append2@b1", True, [m("append"), m("tag"),
                                       b("append2")]),
  ]
  out += [
      ("append|append2|append3", True, [m("append"), m("append2"),
                                        m("append3")]),
      ("upsert|upsert2|delete", True, [m("upsert"), m("upsert2"),
                                       m("delete")]),
      ("append,append3|append2,read", True, [m("append", "append3"),
                                             m("append2", "read")]),
      ("append,upsert2|delete,tag", True, [m("append", "upsert2"),
                                           m("delete", "tag")]),
      ("append|upsert2@b1|read,readb1", True, [
          m("append"), b("upsert2"), m("read", "readb1")]),
      ("create|create|load", False, [late("create"), late("create"),
                                     late("load")]),
  ]
  writers = ["append", "insert", "upsert", "upsert2", "delete", "delete2",
             "nothing", "tag", "branch", "untag", "unbranch"]
  seen = {n for n, _, _ in out}
  for i, x in enumerate(writers):
    for y in writers[i:]:
      if f"{x}|{y}" not in seen and f"{y}|{x}" not in seen:
        out.append((f"{x}|{y}", True, [m(x), m(y)]))
      for z in ("main", "b1"):
        if y in ("append", "upsert", "upsert2", "delete"):
          name = f"late {x}|{y}@{z}"
          if name not in seen:
            out.append((name, True, [late(x), (z, False, [y])]))
  if tier != "quick":
    some = ["append", "insert", "upsert2", "delete", "delete2", "tag",
            "unbranch"]
    for i, x in enumerate(some):
      for j, y in enumerate(some[i:], i):
        for z in some[j:]:
          out.append((f"{x}|{y}|{z}", True, [m(x), m(y), m(z)]))
        for z in ("read", "readb1"):
          out.append((f"{x}|{y}@b1|{z},{z}", True, [m(x), b(y), m(z, z)]))
    for x in some:
      for y in some:
        for z in some:
          out.append((f"{x},append3|{y},{z}", True, [m(x, "append3"),
                                                     m(y, z)]))
  return out


# ------------------------------------------------------------ one process


def body(loc, ds, names, pid):
  """Runs the actions of one process; returns their outcomes."""
  root = os.path.dirname(loc)

  def mark(j):
    os.path.exists(f"{root}/__mark_{pid}_{j}")

  out = []
  for j, name in enumerate(names):
    mark(j)
    a = ACTIONS[name]
    try:
      if a[0] == "create":
        ds = W.create(loc)
        out.append(("ok", None))
        continue
      if ds is None or a[0] == "load":
        ds = Dataset.load(loc)
      if a[0] in ("read", "load"):
        kw = {"version": a[1]} if len(a) > 1 else {}
        out.append(("value", driver.read_bag(ds, W.fields, **kw)))
      elif history.is_ref(a):
        history.impl_ref(ds, a)
        out.append(("ok", None))
      else:
        r = driver.run_op(ds, W, a)
        out.append((driver.state_of(r), r.error_message))
    except (errors.SpaceRuntimeError, errors.UserInputError) as e:
      out.append(("rejected", exc_str(e)))
    except FileNotFoundError as e:
      out.append(("notfound", exc_str(e)))
    except Exception as e:  # pylint: disable=broad-except
      out.append(("raised", exc_str(e)))
  mark(len(names))
  return out


# ---------------------------------------------------------------- judging


class Act:
  """An action of an execution: what it was, when, and its outcome."""

  def __init__(self, name, branch, start, end, outcome, detail, order):
    self.name, self.op, self.branch = name, ACTIONS[name], branch
    self.start, self.end = start, end
    self.outcome, self.detail = outcome, detail
    self.order = order
    self.disturbed = False   # another process committed meanwhile

  def __repr__(self):
    d = "" if self.outcome in ("ok", SUCCEEDED) else f" {self.detail}"
    return f"{self.name}@{self.branch}: {self.outcome}{d}"


def is_commit(op):
  return (op.kind in ("rename", "link") and
          "/metadata/entrypoint" in op.paths[0])


def acts_of(ex, spec):
  out = []
  for i, (branch, _, names) in enumerate(spec):
    marks = [k for k, (p, op) in enumerate(ex.events)
             if p == i and "/__mark_" in op.paths[0]]
    for j, name in enumerate(names):
      outcome, detail = ex.results[i][j]
      a = Act(name, branch, marks[j], marks[j + 1], outcome, detail, (i, j))
      a.disturbed = any(p != i and is_commit(op)
                        for p, op in ex.events[a.start:a.end])
      a.pid = i
      out.append(a)
  return out


def observe(loc):
  """Everything a fresh handle sees."""
  ds = Dataset.load(loc)
  md = ds.storage.metadata
  refs = {n: ("tag" if r.type == 1 else "branch", r.snapshot_id)
          for n, r in md.refs.items()}
  # The kind of a reference is observable by checking it out.
  for n in refs:
    try:
      Dataset.load(loc).set_current_branch(n)
      refs[n] = ("branch", refs[n][1])
    except errors.UserInputError:
      refs[n] = ("tag", refs[n][1])
  rows = {s: driver.read_bag(ds, W.fields, version=s)
          for s in ds.storage.snapshot_ids}
  return (md.current_snapshot_id, refs, rows,
          driver.read_bag(ds, W.fields))


def matches(model, seen):
  current, refs, rows, now = seen
  return (model.current == current and model.refs == refs and
          set(model.snaps) == set(rows) and
          all(model.bag(s.rows) == rows[i] for i, s in model.snaps.items())
          and now == model.bag(model.rows()))


def fits(model, act):
  """Apply the action to the model; True if the outcome agrees.

  model is None while the dataset does not exist.
  """
  op, kind = act.op, act.op[0]
  if kind == "create":
    if act.outcome == "ok":
      return model is None, W.model()
    return act.outcome == "rejected" and model is not None, model
  if model is None:
    return act.outcome == "notfound", None
  if kind in ("read", "load"):
    if kind == "load":
      sid = model.current
    elif len(op) == 1:
      sid = model.head(act.branch)
    elif isinstance(op[1], int):
      sid = op[1]
    elif op[1] in model.refs:
      sid = model.refs[op[1]][1]
    else:
      return act.outcome == "rejected", model
    return (act.outcome == "value" and
            act.detail == model.bag(model.snaps[sid].rows)), model
  m = model.copy()
  if history.is_ref(op):
    want, _ = history.model_ref(m, op, act.branch)
    return (act.outcome == "ok") == (want == history.OK) and \
        act.outcome in ("ok", "rejected"), m
  if act.outcome == FAILED and act.disturbed:
    return True, model
  if act.branch != "main" and act.branch not in m.refs:
    return act.outcome in (FAILED, "rejected"), model
  want = m.apply(op, act.branch)
  return want == act.outcome, m


def linearize(acts, model, seen):
  """Is there an order of the actions explaining all outcomes?"""

  def go(rest, model):
    if not rest:
      return seen is None if model is None else (
          seen is not None and matches(model, seen))
    for a in rest:
      # Real-time order, and program order within a process.
      if any(b is not a and b.end <= a.start for b in rest):
        continue
      ok, m = fits(model, a)
      if ok and go([b for b in rest if b is not a], m):
        return True
    return False

  return go(acts, model)


def commit_window(ex, act):
  """(check, rename) of the commit in an action if it has the known shape:
  the entry point is checked after all data has been written, immediately
  before the metadata and the entry point are written."""
  mine = [(k, op) for k, (p, op) in enumerate(ex.events)
          if p == act.pid and act.start <= k < act.end]
  renames = [k for k, op in mine if is_commit(op)]
  if len(renames) != 1:
    return None
  checks = [k for k, op in mine
            if op.reads_only() and k < renames[0] and
            op.paths[0].split("/metadata/entrypoint")[-1][-6:] != ".tmp" and
            "/metadata/entrypoint" in op.paths[0]]
  if not checks:
    return None
  for k, op in mine:
    if checks[-1] < k < renames[0] and op.kind in ("create", "write", "mkdir"):
      if "/data/" in op.paths[0]:
        return None
      if act.op[0] == "create" and "/entrypoint" not in op.paths[0]:
        return None
  return checks[-1], renames[0]


def known_race(ex, acts, base_model, seen):
  """Recognises executions that are wrong only because of the known race.

  At least two commits must have overlapping windows of the known shape, and
  everything observed must be exactly what follows when each commit replaces
  the whole metadata by what it read at its check plus its own change.
  """
  windows = {}
  for a in acts:
    if a.outcome in ("ok", SUCCEEDED) and any(
        p == a.pid and is_commit(op)
        for p, op in ex.events[a.start:a.end]):
      w = commit_window(ex, a)
      if w is None:
        return None
      windows[a.order] = w
  if not any(o != a and windows[o][0] < r < windows[o][1]
             for a, (_, r) in windows.items() for o in windows):
    return None
  value, values = base_model, {}
  by_rename = {windows[a.order][1]: a for a in acts if a.order in windows}
  for k, (_, op) in enumerate(ex.events):
    if op.reads_only() and "/metadata/entrypoint" in op.paths[0]:
      values[k] = value
    if k in by_rename:
      a = by_rename[k]
      check = values[windows[a.order][0]]
      if a.op[0] == "create":
        if check is not None:
          return None
        value = W.model()
        continue
      m = check.copy()
      if history.is_ref(a.op):
        want, _ = history.model_ref(m, a.op, a.branch)
        if want != history.OK:
          return None
      else:
        base = reads_of(ex, a, values)[-2]
        if base is not check:
          head = lambda x: x.head(a.branch)
          if base.snaps[head(base)] is not check.snaps[head(check)]:
            # Same ID, other snapshot: prepared on a lost commit.
            return "commit-window-base"
        if m.apply(a.op, a.branch) != SUCCEEDED:
          return None
      value = m
  # Outcomes of the actions that committed nothing.
  for a in acts:
    if a.order in windows:
      continue
    vals = reads_of(ex, a, values)
    if a.outcome == FAILED and len(vals) > 1 and a.disturbed:
      continue
    if a.op[0] == "create" and not vals:
      vals = [value]
    # It took effect at one of its reads.
    if not any(fits(x, a)[0] for x in vals):
      return None
  if value is None or seen is None or not matches(value, seen):
    return None
  kinds = {a.op[0] for a in acts if a.order in windows}
  return "create-window" if "create" in kinds else "commit-window"


def reads_of(ex, act, values):
  """Values of the entry point read by an action, in order."""
  return [values[k] for k, (p, op) in enumerate(ex.events)
          if k in values and p == act.pid and act.start <= k < act.end]


def judge(ex, loc, spec, base_model):
  trace = [f"{p}: {op}" for p, op in ex.events
           if is_commit(op) or "entrypoint" in op.paths[0] or
           "__mark" in op.paths[0]]
  for i, e in enumerate(ex.errors):
    if e:
      return [violation(f"process:{e[:40]}", f"process {i}: {e}", trace)]
  acts = acts_of(ex, spec)
  trace = [repr(a) for a in acts] + trace
  for a in acts:
    if a.outcome == "raised" or (a.outcome == "notfound" and base_model):
      return [violation(f"raised:{a.op[0]}", f"{a}", trace)]
  try:
    seen = observe(loc)
  except Exception as e:  # pylint: disable=broad-except
    if isinstance(e, FileNotFoundError) and base_model is None and not any(
        a.outcome == "ok" for a in acts):
      seen = None
    else:
      return [violation("final:unreadable", exc_str(e), trace)]
  if linearize(acts, base_model, seen):
    return []
  # The documented race: a commit is overwritten by another one that checked
  # before and renamed after it.
  sig = known_race(ex, acts, base_model, seen)
  if sig:
    return [violation(sig, "a commit was overwritten by one that had checked "
                      "before it", trace)]
  return [violation("not-serializable", f"no order of the operations explains "
                    f"the outcomes; final state {seen}", trace)]


# -------------------------------------------------------------------- run


def _task(item):
  name, exists, spec = item
  pa.set_cpu_count(1)
  pa.set_io_thread_count(1)
  src = harness.new_dir("src7")
  os.makedirs(src)
  base_model = None
  if exists:
    _, base_model, _ = history.replay(W, os.path.join(src, "ds"), BASE)
  fixed = set()
  for d, dirs, files in os.walk(src):
    for f in dirs + files:
      fixed.add(os.path.join(d, f)[len(src):])
  mutable = {p for p in fixed if "entrypoint" in p}
  out = {"violations": [], "states": 0, "transitions": 0, "counts": {},
         "traces": 0, "samples": []}

  def make():
    base = harness.new_dir("x7")
    driver.copy_tree(src, base)
    loc = os.path.join(base, "ds")
    fns = []
    for i, (branch, late, names) in enumerate(spec):
      ds = None
      if not late:
        ds = Dataset.load(loc)
        if branch != "main":
          ds.set_current_branch(branch)
      fns.append(lambda ds=ds, names=names, i=i: body(loc, ds, names, i))
    skip = lambda op: (op.reads_only() and op.paths[0] in fixed and
                       op.paths[0] not in mutable)
    return fns, base, skip, lambda: harness.rm(base)

  while True:
    again = []

    def judge_one(ex, root):
      for _, op in ex.events:
        if not op.reads_only() and op.kind != "mkdir":
          for p in op.paths:
            if p in fixed and p not in mutable:
              again.append(p)
      v = judge(ex, os.path.join(root, "ds"), spec, base_model)
      for x in v:
        x["trace"] = [name] + x["trace"]
      return v

    try:
      n, pruned, events, violations, done = dpor.explore(
          make, judge_one, limit=_CTX["limit"])
    except dpor.Diverged as e:
      out["violations"].append(violation(
          "nondeterministic", f"{name}: replay diverged: {e}", [name]))
      break
    if not again:
      break
    mutable.update(again)
  else:
    n = 0
  if not out["violations"]:
    out["states"], out["transitions"], out["traces"] = n, events, n
    out["violations"] = violations
    out["counts"] = {"schedules": n, "pruned": pruned, "scenarios": 1,
                     "scenarios_cut": 0 if done else 1}
    out["samples"] = [{"scenario": name, "schedules": n}]
  harness.rm(src)
  return out


def run(report, tier):
  _CTX["limit"] = 3000 if tier == "quick" else 60000
  items = scenarios(tier)
  items.sort(key=lambda x: -sum(len(s[2]) for s in x[2]) * len(x[2]) ** 2)
  for r in harness.pmap(_task, items):
    report.merge(r)
  report.exhaustive = not report.extra.get("scenarios_cut")
  report.bounds.append(
      f"{len(items)} scenarios of 2 to 3 processes with 1 to 2 operations "
      "each; all schedules of their file system operations up to "
      "reordering of independent ones")
  report.assumptions += [
      "file system operations are atomic and sequentially consistent",
      "opening a file for reading and reading it is one step"]
