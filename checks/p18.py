"""P18: branches are isolated from each other."""

import pyarrow as pa

from checks import long, p08
from mc import driver, harness, hbfs, history, invariant
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED

from space import Dataset, RandomAccessDataSource

W = World("branches", [("k", pa.int64()), ("r", pa.binary()),
                       ("v", pa.string())], ["k"], ["r"])
BRANCHES = ("b1", "b2")


def row(k, x):
  return W.row(k, b"r%d" % k + x.encode(), x)


def check(ds, world, model, branch, op, result, trace, location, counts):
  f = world.fields
  # The acting handle stays on its branch.
  v = driver.expect_bag("current branch", lambda: driver.read_bag(ds, f),
                        model.bag(model.rows(branch=branch)), trace)
  fresh = Dataset.load(location)
  v = v or driver.expect_bag("main", lambda: driver.read_bag(fresh, f),
                             model.bag(model.rows()), trace)
  v = v or history.check_versions_listed(fresh, model, trace)
  branches = [n for n, (kind, _) in model.refs.items() if kind == "branch"]
  for b in branches + ["main"]:
    if v:
      return v
    t = trace + [["look at", b]]
    # By name, and from a handle on the branch, before and after others.
    for handle in (Dataset.load(location), fresh):
      try:
        handle.set_current_branch(b)
      except Exception as e:  # pylint: disable=broad-except
        return [violation("checkout-raised", exc_str(e), t)]
      v = v or driver.expect_bag(
          "branch from a handle on it", lambda: driver.read_bag(handle, f),
          model.bag(model.rows(branch=b)), t)
    if b != "main":
      v = v or driver.expect_bag(
          "branch by name", lambda: driver.read_bag(ds, f, version=b),
          model.bag(model.rows(branch=b)), t)
    v = v or invariant.check_version(handle, world, model.rows(branch=b), t,
                                     None, counts)
    # Its history is the chain of its own commits.
    head = model.head(b)
    for s in model.ancestors(head)[1:]:
      if v:
        return v
      counts["diffs"] = counts.get("diffs", 0) + 1
      try:
        got = history.impl_diff(handle, world, s, head if b == "main" else b)
      except Exception as e:  # pylint: disable=broad-except
        return [violation("diff-raised", exc_str(e), t + [["diff", s, b]])]
      if got != history.model_diff(model, s, head):
        v = [violation("diff", f"{got}, expected "
                       f"{history.model_diff(model, s, head)}",
                       t + [["diff", s, b]])]
    if not v and model.rows(branch=b):
      try:
        handle.storage.reload()
        src = RandomAccessDataSource({"r": handle.storage})
        got = sorted(src[i] for i in range(len(src)))
      except Exception as e:  # pylint: disable=broad-except
        return [violation("random-access-raised", exc_str(e), t)]
      if got != sorted(r["r"] for r in model.rows(branch=b)):
        v = [violation("random-access", f"{got}", t)]
  for n, (kind, s) in model.refs.items():
    if kind == "tag" and not v:
      v = driver.expect_bag("tag", lambda: driver.read_bag(ds, f, version=n),
                            model.bag(model.snaps[s].rows), trace)
  counts["branches_compared"] = (
      counts.get("branches_compared", 0) + len(branches) + 1)
  return v


def actions(rich):
  def ops(model, branch, trace):
    x = "abcdefghijklmnop"[len(trace)]
    out = [
        ("append_from", [[row(1, x)], [row(5, x), row(2, x)]], "filear"),
        ("upsert", [row(2, x), row(3, x)], "default"),
        ("delete", ("cmp", "==", "k", 1), "file"),
    ]
    if rich:
      out += [("delete", ("lit", True), "default"),
              ("insert", [row(4, x)], "rgar")]
    for b in ("main",) + BRANCHES:
      if b != branch and (b == "main" or b in model.refs):
        out.append(("checkout", b))
    if branch == "main":
      # From where a reference starts by default when added on another branch
      # is not part of the property.
      for b in BRANCHES[:1 + ("b1" in model.refs)]:
        if b not in model.refs:
          out.append(("branch", b))
    for b in BRANCHES:
      if b in model.refs and rich:
        out.append(("unbranch", b))
    if rich:
      if "t1" in model.refs:
        out.append(("untag", "t1"))
      elif model.max_id:
        out.append(("tag", "t1", model.max_id))
    return out
  return ops


def run(report, tier):
  deep = tier != "quick"
  hbfs.explore(report, W, actions(False), 6 if deep else 5, check)
  report.bounds.append(
      f"all histories of up to {6 if deep else 5} of 3 mutations, creation of "
      "and switching between main, b1 and b2")
  roots = [
      [("append_from", [[row(1, "p")], [row(2, "p")]], "file"),
       ("branch", "b1"), ("branch", "b2")],
      [("branch", "b1"), ("append", [row(1, "p"), row(2, "p")], "default"),
       ("branch", "b2"), ("checkout", "b2"),
       ("upsert", [row(2, "q")], "default"), ("checkout", "b1")],
      [("append", [row(1, "p"), row(2, "p")], "rg"), ("branch", "b1"),
       ("checkout", "b1"), ("delete", ("lit", True), "default"),
       ("checkout", "main"), ("unbranch", "b1"), ("branch", "b2")],
  ]
  hbfs.explore(report, W, actions(True), 4 if deep else 3, check, roots=roots)
  report.bounds.append(
      f"all continuations by up to {4 if deep else 3} of 12 actions (also "
      "removal of branches, tags, deleting everything) of 3 histories with "
      "two branches")

  items = p08.switched(not deep)
  for r in harness.pmap(p08._inflight_task, items):
    report.merge(r)
  report.bounds.append(
      f"{len(items)} appends whose handle is switched to another branch, and "
      "used there, before each of their batches and before their commit")
  long.add(report, tier, "AUDBCT", ("branches",))
