"""P08: several long-lived handles of one dataset, all interleavings."""

import copy
import os

import pyarrow as pa

from mc import driver, harness, history
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import FAILED, SKIPPED, SUCCEEDED

from space import Dataset
from space.core.utils import errors

_CTX = {}
W = World("handles", [("k", pa.int64()), ("r", pa.binary()),
                      ("v", pa.string())], ["k"], ["r"])


def row(k, x):
  return W.row(k, b"r" + x.encode(), x)


BASE = (("append_from", [[row(1, "a"), row(2, "a")], [row(3, "b")]], "file"),
        ("branch", "b1"), ("upsert", [row(3, "c")], "default"))


class Tree:
  """Directory contents, restorable."""

  def __init__(self, base):
    self.base, self.files = base, {}
    for d, _, files in os.walk(base):
      for f in files:
        p = os.path.join(d, f)
        with open(p, "rb") as fh:
          self.files[p] = fh.read()

  def restore(self):
    for d, _, files in os.walk(self.base):
      for f in files:
        p = os.path.join(d, f)
        if p not in self.files:
          os.unlink(p)
    for p, data in self.files.items():
      try:
        with open(p, "rb") as fh:
          if fh.read() == data:
            continue
      except FileNotFoundError:
        pass
      with open(p, "wb") as fh:
        fh.write(data)


def alphabet(model, branch, i, depth, small):
  """Actions of handle i; values are unique per position."""
  x = "efghijklm"[depth]
  out = [
      ("append", [row(10 + depth, x)], "default"),
      ("upsert", [row(1, x), row(11, x)], "file"),
      ("delete", ("cmp", "<=", "k", 2), "default"),
      ("read",),
  ]
  if branch == "main":
    out += [("tag", "t1"), ("branch", "b2")]
    if not small:
      out += [("unbranch", "b1"), ("untag", "t1")]
    out += [("checkout", "b1")]
  else:
    out += [("checkout", "main")]
    if not small:
      out += [("untag", "t1")]
  return out


def perform(ds, model, branch, op, trace):
  """One action through a handle: (violations, branch)."""
  if op[0] == "checkout":
    # Names are resolved in the state last loaded.
    ds.storage.reload()
  if op[0] == "read":
    if branch != "main" and branch not in model.refs:
      return history.expect_error(
          "read of a removed branch", lambda: ds.local().read_all(),
          (errors.VersionNotFoundError,), trace), branch
    return driver.expect_bag(
        "read through a handle", lambda: driver.read_bag(ds, W.fields),
        model.bag(model.rows(branch=branch)), trace), branch
  if op[0] in history.DATA_OPS and branch != "main" and (
      branch not in model.refs):
    # The branch is gone: the operation must be refused.
    try:
      r = driver.run_op(ds, W, op)
      if driver.state_of(r) != FAILED:
        return [violation("write-on-removed-branch", f"{op[0]} returned "
                          f"{driver.state_of(r)}", trace)], branch
    except (errors.SpaceRuntimeError, errors.UserInputError):
      pass
    return [], branch
  v, _, b = history.act(ds, W, model, op, trace, branch)
  return v, b


def final(loc, handles, model, branches, trace):
  """A fresh handle and every old handle see the same, latest state."""
  ds = Dataset.load(loc)
  v = (history.check_versions_listed(ds, model, trace) or
       history.check_all_versions(ds, W, model, trace))
  for name, (kind, _) in model.refs.items():
    if v or kind != "branch":
      continue
    ds = Dataset.load(loc)
    ds.set_current_branch(name)
    v = driver.expect_bag("branch head", lambda: driver.read_bag(ds, W.fields),
                          model.bag(model.rows(branch=name)), trace)
  for i, (h, b) in enumerate(zip(handles, branches)):
    if v:
      return v
    t = trace + [f"handle {i}: read"]
    v, _ = perform(h, model, b, ("read",), t)
    v = v or history.check_versions_listed(h, model, t)
  return v


def dfs(loc, handles, model, branches, trace, depth, small, out, prefix):
  """Explores all continuations; `prefix` fixes the first choices."""
  if depth == 0:
    v = final(loc, handles, model, branches, trace)
    out["violations"] += v
    out["traces"] += 1
    return
  used = max((t[0] for t in trace), default=-1)
  tree = Tree(os.path.dirname(loc))
  for i in range(min(len(handles), used + 2)):
    ops = alphabet(model, branches[i], i, len(trace), small)
    for j, op in enumerate(ops):
      if prefix and prefix[0] != (i, j):
        continue
      hs = copy.deepcopy(handles)
      m, bs = model.copy(), list(branches)
      t = trace + [(i, history.show(W, op) if op[0] != "read" else ["read"])]
      v, bs[i] = perform(hs[i], m, bs[i], op, t)
      out["transitions"] += 1
      out["violations"] += v
      if not v:
        dfs(loc, hs, m, bs, t, depth - 1, small, out, prefix[1:])
      tree.restore()
      if len(out["violations"]) > 20:
        return


def fresh_base():
  base = harness.new_dir("h8")
  os.makedirs(base)
  loc = os.path.join(base, "ds")
  _, model, _ = history.replay(W, loc, BASE)
  return base, loc, model


def _dfs_task(item):
  n, depth, small, prefix = item
  out = {"violations": [], "transitions": 0, "traces": 0, "states": 0,
         "counts": {}}
  base, loc, model = fresh_base()
  # Handles are opened before anything happens: all are stale later on.
  handles = [Dataset.load(loc) for _ in range(n)]
  dfs(loc, handles, model, ["main"] * n, [], depth, small, out, prefix)
  harness.rm(base)
  out["states"] = out["transitions"]
  out["counts"]["interleavings"] = out["traces"]
  return out


def _prefixes(n, depth, small):
  """Choices of the first two actions that can occur (a superset)."""
  m = W.model()
  m.refs = {"b1": ("branch", 0)}
  k = max(len(alphabet(m, b, 0, 0, small)) for b in ("main", "b1"))
  return [(n, depth, small, [(0, a), (i, b)]) for a in range(k)
          for i in range(min(n, 2)) for b in range(k)]


# ----------------------------------------------------- operations in flight


def inflight_ops(x):
  return [("append", [row(21, x)], "default"),
          ("upsert", [row(1, x)], "default"),
          ("delete", ("cmp", "==", "k", 2), "default"),
          ("delete", ("cmp", "==", "k", 77), "default"),
          ("tag", "t9"), ("branch", "b9"), ("unbranch", "b1"), ("read",)]


def _inflight_task(item):
  """append_from whose input runs other operations between its batches."""
  mine, other, ops, at = item
  out = {"violations": [], "transitions": 0, "traces": 1, "states": 1,
         "counts": {"operations_in_flight": 1}}
  base, loc, model = fresh_base()
  a = Dataset.load(loc)
  if mine != "main":
    a.set_current_branch(mine)
  b = a if other == "same" else Dataset.load(loc)
  b_branch = mine if other == "same" else other
  if other == "b1":
    b.set_current_branch("b1")
  trace = [f"append_from on {mine}, before batch {at} through handle "
           f"'{other}':"] + [history.show(W, o) if o[0] != "read" else ["read"]
                             for o in ops]
  bad = []
  head0 = model.head(mine)
  now = [b_branch]  # The branch of the handle.

  def batches():
    for i in range(3):
      if i == at:
        for o in ops:
          v, now[0] = perform(b, model, now[0], o, trace)
          bad.extend(v)
      if i < 2:
        yield W.table([row(30 + i, "z")])

  try:
    r = a.local().append_from(batches)
    state = driver.state_of(r)
  except Exception as e:  # pylint: disable=broad-except
    bad.append(violation("inflight-raised", exc_str(e), trace))
    state = None
  if state is not None and not bad:
    gone = mine != "main" and mine not in model.refs
    want = SUCCEEDED
    if gone or model.head(mine) != head0:
      want = FAILED
    else:
      model.apply(("append_from", [[row(30, "z")], [row(31, "z")]]), mine)
    if state != want:
      bad.append(violation(
          f"inflight:{state}-for-{want}", f"append_from returned {state}",
          trace))
  b_branch = now[0]
  a_branch = b_branch if other == "same" else mine
  if not bad:
    bad = final(loc, [a, b], model, [a_branch, b_branch], trace)
    out["transitions"] = 1 + len(ops)
  if not bad and not (a_branch != "main" and a_branch not in model.refs):
    # Trying again works.
    bad, _ = perform(a, model, a_branch, ("append", [row(40, "y")], "default"),
                     trace + ["append again"])
    bad = bad or final(loc, [a, b], model, [a_branch, b_branch],
                       trace + ["append again"])
  out["violations"] += bad
  harness.rm(base)
  return out


# ------------------------------------------------------------ open iterators


def _iter_task(item):
  """Readers opened at every point of a history keep reading their version."""
  ops = item
  out = {"violations": [], "transitions": 0, "traces": 1, "states": 1,
         "counts": {"open_readers": 0}}
  base, loc, model = fresh_base()
  a, b = Dataset.load(loc), Dataset.load(loc)
  trace = [history.show(W, o) for o in ops]
  open_ = []
  try:
    for n in range(len(ops) + 1):
      for h in (a, b):
        rows = model.bag(model.rows())
        # A reader that has started, and one that has not.
        it = h.local().read(batch_size=1)
        first = [next(it, None)]
        open_.append(("read", n, [t for t in first if t is not None], it, rows))
        open_.append(("read", n, [], h.local().read(
            filter_=driver.expr.to_arrow(("cmp", ">", "k", 1))),
                      model.bag([r for r in model.rows() if r["k"] > 1])))
        open_.append(("version", n, [], h.local().read(
            version=1), model.bag(model.rows(1))))
        if model.current > 1:
          open_.append(("diff", n, [], h.local().diff(1, model.current),
                        history.model_diff(model, 1, model.current)))
      if n < len(ops):
        v, _ = perform((a, b)[n % 2], model, "main", ops[n], trace)
        out["violations"] += v
        out["transitions"] += 1
    for kind, n, head, it, want in open_:
      if kind == "diff":
        got = []
        for c in it:
          fields = W.pk if c.type_.name == "DELETE" else W.fields
          bag = driver.bag_of_table(c.data, fields)
          if got and got[-1][:2] == (c.snapshot_id, c.type_.name):
            got[-1][2].update(bag)
          else:
            got.append((c.snapshot_id, c.type_.name, bag))
        got = [x for x in got if x[2]]
      else:
        got = driver.Counter()
        for t in head + list(it):
          got += driver.bag_of_table(t, W.fields)
      out["counts"]["open_readers"] += 1
      if got != want:
        out["violations"].append(violation(
            f"open-{kind}", f"{kind} opened before action {n} returned {got}, "
            f"expected {want}", trace))
  except Exception as e:  # pylint: disable=broad-except
    out["violations"].append(violation("open-reader-raised", exc_str(e),
                                       trace))
  harness.rm(base)
  return out


def switched(quick):
  """Appends whose own handle is switched to another branch meanwhile."""
  data = [("append", [row(21, "x")], "default"),
          ("delete", ("cmp", "==", "k", 2), "default"), ("read",),
          ("tag", "t9")]
  items = []
  for mine, to in (("main", "b1"), ("b1", "main")):
    seqs = [(("checkout", to),), (("checkout", to), ("checkout", mine))]
    for o in data:
      if mine == "main" or o[0] != "tag":
        seqs.append((o, ("checkout", to)))
      if to == "main" or o[0] != "tag":
        seqs.append((("checkout", to), o))
      if o[0] != "tag":
        seqs.append((("checkout", to), o, ("checkout", mine)))
    if to == "main":
      seqs.append((("checkout", to), ("unbranch", "b1")))
    items += [(mine, "same", s, at) for s in seqs for at in (0, 1, 2)]
    if not quick:
      items += [(mine, "same", s + (o,), at) for s in seqs for o in data
                for at in (0, 1, 2) if o[0] != "tag"]
  return items


def run(report, tier):
  quick = tier == "quick"
  plans = [(2, 3, False), (3, 3, True)] if quick else [
      (2, 4, False), (3, 4, True)]
  for n, depth, small in plans:
    for r in harness.pmap(_dfs_task, _prefixes(n, depth, small)):
      report.merge(r)
    report.bounds.append(f"{n} handles: all interleavings of {depth} actions "
                         f"({'6 to 7' if small else '6 to 9'} per handle)")
  base_ops = inflight_ops("x")
  items = []
  seqs = [(o,) for o in base_ops]
  seqs += [(o, p) for o in base_ops for p in inflight_ops("y")
           if not (o == p and o[0] in ("tag", "branch", "unbranch"))]
  for mine in ("main", "b1"):
    for other in ("main", "b1", "same"):
      for s in seqs:
        if len(s) > 1 and quick and other == "same":
          continue
        if any(o[0] in ("tag", "branch", "unbranch") for o in s) and (
            other == "b1" or other == "same" and mine == "b1"):
          continue
        for at in ((1,) if len(s) > 1 and quick else (0, 1, 2)):
          items.append((mine, other, s, at))
  items += switched(quick)
  for r in harness.pmap(_inflight_task, items):
    report.merge(r)
  report.bounds.append(f"{len(items)} appends in flight overtaken by 1 to 3 "
                       "operations on the same or another handle and branch, "
                       "or by a switch of the branch of their handle")
  ops = [("append", [row(8, "p")], "default"),
         ("upsert", [row(2, "q"), row(9, "q")], "file"),
         ("delete", ("cmp", "==", "k", 3), "default"),
         ("delete", ("cmp", ">", "k", 0), "default"), ("tag", "t5"),
         ("unbranch", "b1")]
  items = [(x, y) for x in ops for y in ops]
  if not quick:
    items = [(x, y, z) for x in ops for y in ops for z in ops]
  items = [i for i in items
           if i.count(("tag", "t5")) < 2 and i.count(("unbranch", "b1")) < 2]
  for r in harness.pmap(_iter_task, items):
    report.merge(r)
  report.bounds.append(f"readers opened at every point of {len(items)} "
                       "histories and drained at the end")
