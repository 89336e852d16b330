"""Long histories: more versions, references and files than a digit counts.

A word over the letters below is repeated until there are `length` actions;
all words up to a length are run. What has to hold is looked at after each
action (the rows) and at the end (all versions, references, differences and
statistics).
"""

import itertools
import os

import pyarrow as pa

from mc import driver, harness, history, invariant
from mc.driver import World
from mc.harness import exc_str, violation

from space import Dataset, RandomAccessDataSource

W = World("long", [("k", pa.int64()), ("r", pa.binary()), ("v", pa.string())],
          ["k"], ["r"])
DATA = "AFUDRZ"
REFS = "TOBXC"


def row(k, i):
  return W.row(k, b"r%d" % i, f"v{i}")


def step_ops(letter, i, model, branch, row=row):  # pylint: disable=redefined-outer-name
  """The actions a letter stands for as the i-th one."""
  rows = sorted(r["k"] for r in model.rows(branch=branch))
  top = rows[-1] if rows else 0
  if letter == "A":
    return [("append", [row(top + 1, i)], "default")]
  if letter == "F":
    return [("append_from", [[row(top + 1, i)], [row(top + 2, i)]], "filear")]
  if letter == "U":
    return [("upsert", [row(top + 1, i), row(top, i)], "file")]
  if letter == "D":  # the oldest row
    return [("delete", ("cmp", "==", "k", rows[0] if rows else 7), "default")]
  if letter == "R":  # one of two newest rows, in place
    return [("delete", ("cmp", "==", "k", top - i % 2), "rg")]
  if letter == "Z":  # most rows
    return [("delete", ("cmp", "<", "k", top - 1), "default")]
  branches = sorted((n for n, (kind, _) in model.refs.items()
                     if kind == "branch"), key=lambda n: int(n[1:]))
  tags = [n for n, (kind, _) in model.refs.items() if kind == "tag"]
  if letter == "T":
    return [("tag", f"t{i}", model.head(branch))]
  if letter == "O":  # a version of long ago
    return [("tag", f"o{i}", sorted(model.snaps)[len(model.snaps) // 3])]
  if letter == "B":
    back = [] if branch == "main" else [("checkout", "main")]
    return back + [("branch", f"b{i}")]
  if letter == "X":  # remove the oldest one
    if tags:
      return [("untag", tags[0])]
    if branches and branches[0] != branch:
      return [("unbranch", branches[0])]
    return []
  if letter == "C":
    if branch == "main" and branches:
      return [("checkout", branches[-1])]
    return [("checkout", "main")] if branch != "main" else []
  raise ValueError(letter)


def expand(word, length, world=W, make=row):
  """The actions of a long history."""
  model, branch, out = world.model(), "main", []
  for i, letter in zip(range(length), itertools.cycle(word)):
    for op in step_ops(letter, i, model, branch, make):
      out.append(op)
      if history.is_ref(op):
        _, branch = history.model_ref(model, op, branch)
      else:
        model.apply(op, branch)
  return tuple(out)


def diffs(ds, model, end, trace, counts):
  """Differences of the first, the neighbouring and some versions up to one."""
  chain = sorted(model.ancestors(end))
  pairs = {(chain[0], e) for e in chain[1:]} | {(s, end) for s in chain[:-1]}
  pairs |= set(zip(chain, chain[1:])) | set(zip(chain, chain[2:]))
  for s, e in sorted(pairs):
    if s == e:
      continue
    try:
      got = history.impl_diff(ds, W, s, e)
    except Exception as ex:  # pylint: disable=broad-except
      return [violation(f"long-diff-raised:{type(ex).__name__}", exc_str(ex),
                        trace + [["diff", s, e]])]
    if got != history.model_diff(model, s, e):
      return [violation("long-diff", f"diff({s}, {e}) returned {got}, expected "
                        f"{history.model_diff(model, s, e)}",
                        trace + [["diff", s, e]])]
    counts["long_diffs"] = counts.get("long_diffs", 0) + 1
  return []


class Hook:
  """What else is looked at around each action."""

  def __init__(self, base):
    self.base = base  # of the directory of the dataset

  def run(self, op, trace, counts, fn):
    """Runs the action; returns (violations, its result)."""
    del op, trace, counts
    return [], fn()


def task(item):
  word, length, parts, hook_type = item
  out = {"violations": [], "transitions": 0, "states": 0, "traces": 1,
         "counts": {"long_histories": 1}}
  counts = out["counts"]
  base = harness.new_dir("long")
  os.makedirs(base)
  d = os.path.join(base, "ds")
  ds = W.create(d)
  hook = hook_type(base)
  model, branch, trace = W.model(), "main", []
  for i, letter in zip(range(length), itertools.cycle(word)):
    for op in step_ops(letter, i, model, branch):
      trace = trace + [history.show(W, op)]
      bad, (v, _, branch) = hook.run(op, trace, counts, lambda: history.act(
          ds, W, model, op, trace, branch))  # pylint: disable=cell-var-from-loop
      out["transitions"] += 1
      if not v:
        v = driver.expect_bag(
            "rows in a long history", lambda: driver.read_bag(ds, W.fields),
            model.bag(model.rows(branch=branch)), trace)
      v = bad + v
      if v:
        out["violations"] = v
        harness.rm(base)
        return out
  out["states"] = len(model.snaps)
  v = []
  for handle, b in ((ds, branch), (Dataset.load(d), "main")):
    if "versions" in parts:
      v = v or history.check_all_versions(handle, W, model, trace, b)
      v = v or history.check_versions_listed(handle, model, trace)
      v = v or history.check_missing_versions(handle, model, trace,
                                              ("t1", "b1"))
    if "diffs" in parts:
      v = v or diffs(handle, model, model.head(b), trace, counts)
  if "invariant" in parts:
    for s, snap in model.snaps.items():
      v = v or invariant.check_version(ds, W, snap.rows, trace, s, counts)
  if "branches" in parts:
    heads = ["main"] + [n for n, (k, _) in model.refs.items() if k == "branch"]
    for b in heads:
      handle = Dataset.load(d)
      handle.set_current_branch(b)
      v = v or driver.expect_bag(
          "branch of a long history", lambda: driver.read_bag(handle, W.fields),
          model.bag(model.rows(branch=b)), trace + [["look at", b]])
      v = v or diffs(handle, model, model.head(b), trace, counts)
  if "random_access" in parts and not v and model.rows():
    src = RandomAccessDataSource({"r": Dataset.load(d).storage})
    got = sorted(src[i] for i in range(len(src)))
    if got != sorted(r["r"] for r in model.rows()):
      v = [violation("long-random-access", f"{got}", trace)]
  out["violations"] = v
  harness.rm(base)
  return out


def words(letters, most):
  """All words up to a length, but those that repeat a shorter one."""
  for n in range(1, most + 1):
    for w in itertools.product(letters, repeat=n):
      if not any(n % m == 0 and w == w[:m] * (n // m) for m in range(1, n)):
        yield "".join(w)


def run(report, letters, most, length, parts, longer=0, hook=Hook):
  items = [(w, length, parts, hook) for w in words(letters, most)]
  if longer:  # more than a hundred versions
    items += [(w, longer, parts, hook) for w in words(letters, 1) if w in DATA]
  for r in harness.pmap(task, items):
    report.merge(r)
  report.sample({"long": str(items[-1][:3])})
  report.bounds.append(
      f"all {len(items)} histories that repeat a word of up to {most} of "
      f"{len(letters)} kinds of actions for {length}"
      f"{f' ({longer} for one letter)' if longer else ''} actions")


def add(report, tier, letters, parts, hook=Hook):
  if tier == "quick":
    run(report, letters, 2, 24, parts, hook=hook)
  else:
    run(report, letters, 3, 24, parts, 110, hook)
