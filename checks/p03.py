"""P03: diff(a, b) lists exactly the changes leading from a to b."""

from collections import Counter

import pyarrow as pa

from checks import large, long
from mc import driver, hbfs, history
from mc.driver import World
from mc.harness import exc_str, violation

from space import Dataset


def replay_feed(ds, world, model, trace, counts):
  """A consumer applying the change feed ends up with the source's rows.

  Only meaningful when primary keys are unique in every version passed.
  """
  for end in sorted(model.snaps):
    chain = model.ancestors(end)[::-1]
    if any(max(model.keys(model.snaps[s].rows).values(), default=0) > 1
           for s in chain):
      continue
    for i, start in enumerate(chain[:-1]):
      state = {history.freeze_row(r, world.pk): history.freeze_row(
          r, world.fields) for r in model.snaps[start].rows}
      try:
        for c in ds.local().diff(start, end):
          for r in c.data.to_pylist():
            if c.type_.name == "DELETE":
              state.pop(history.freeze_row(r, world.pk), None)
            else:
              state[history.freeze_row(r, world.pk)] = history.freeze_row(
                  r, world.fields)
      except Exception as e:  # pylint: disable=broad-except
        return [violation(f"diff-raised:{type(e).__name__}",
                          f"diff({start}, {end}) raised {exc_str(e)}", trace)]
      want = model.bag(model.snaps[end].rows)
      if Counter(state.values()) != want:
        return [violation(
            "feed-replay", f"replaying diff({start}, {end}) on version {start}"
            f" gives {sorted(state.values(), key=repr)}, version {end} has "
            f"{sorted(want, key=repr)}", trace)]
      counts["feeds_replayed"] = counts.get("feeds_replayed", 0) + 1
  return []


def check(ds, world, model, branch, op, result, trace, location, counts):
  v = history.check_diffs(ds, world, model, trace, counts)
  v = v or replay_feed(ds, world, model, trace, counts)
  if v:
    return v
  # Batch size does not change what a diff contains.
  ids = sorted(model.snaps)
  for e in ids[1:]:
    s = model.snaps[e].parent
    for bs in (1, 2):
      try:
        got = history.impl_diff(ds, world, s, e, batch_size=bs)
      except Exception as ex:  # pylint: disable=broad-except
        return [violation(f"diff-raised:{type(ex).__name__}",
                          f"diff({s}, {e}, {bs}) raised {exc_str(ex)}", trace)]
      if got != history.model_diff(model, s, e):
        return [violation("diff-batch-size", f"diff({s}, {e}, batch_size={bs})"
                          f" returned {got}", trace)]
  return history.check_diffs(Dataset.load(location), world, model, trace,
                             counts)


def keyed(report, tier):
  w = World("feed", [("k", pa.int64()), ("r", pa.binary()),
                     ("v", pa.string())], ["k"], ["r"])

  def r(k, x):
    return w.row(k, b"r%d" % k + x.encode(), x)

  def ops(model, branch, trace):
    x = "abcdefghijklmnop"[len(trace)]
    out = [
        ("append_from", [[r(1, x)], [r(2, x), r(3, x)]], "file"),
        ("upsert", [r(2, x), r(5, x)], "ar"),
        ("upsert", [r(k, x) for k in (3, 1, 2)], "file"),
        ("insert", [r(4, x), r(6, x)], "rg"),
        ("delete", ("cmp", "==", "k", 2), "default"),
        ("delete", ("cmp", ">=", "k", 3), "file"),
        ("delete", ("cmp", "<", "k", 10), "default"),
    ]
    if "b1" not in model.refs and len(trace) > 0:
      out.append(("branch", "b1"))
    if "b1" in model.refs:
      out.append(("checkout", "b1" if branch == "main" else "main"))
    return out

  depth = 3 if tier == "quick" else 4
  hbfs.explore(report, w, ops, depth, check)
  report.bounds.append(f"{depth} actions: appends, upserts, inserts, deletes "
                       "over 6 keys, one branch; all pairs of versions")
  roots = [[("append_from", [[r(1, "p"), r(2, "p")], [r(3, "p"), r(4, "p")],
                             [r(5, "p")]], "file"),
            ("delete", ("cmp", "==", "k", 2), "default"), ("branch", "b1")],
           [("append", [r(k, "p") for k in range(1, 6)], "default"),
            ("branch", "b1"), ("checkout", "b1"),
            ("upsert", [r(5, "q"), r(1, "q")], "file"), ("tag", "t1", 1)]]
  hbfs.explore(report, w, ops, 2 if tier == "quick" else 3, check, roots=roots)


def compound(report, tier):
  w = World("feed2", [("v", pa.float64()), ("a", pa.int32()),
                      ("b", pa.string())], ["a", "b"])
  r = w.row
  ops = [
      ("append", [r(0.5, 1, "x"), r(None, 1, "y")], "default"),
      ("append_from", [[r(1.5, 2, "x")], [r(None, 2, "y")]], "file"),
      ("upsert", [r(3.0, 1, "y"), r(3.0, 2, "x")], "rg"),
      ("upsert", [r(4.0, 1, "x")], "file"),
      ("delete", ("cmp", "==", "b", "x"), "default"),
      ("delete", ("isnull", "v"), "file"),
      ("delete", ("cmp", "<", "v", 2.0), "default"),
  ]
  depth = 3 if tier == "quick" else 4
  hbfs.explore(report, w, lambda m, b, t: ops, depth, check)
  report.bounds.append(f"compound key: {depth} of {len(ops)} operations")


def run(report, tier):
  keyed(report, tier)
  compound(report, tier)
  large.run(report, tier, False)
  long.add(report, tier, long.DATA, ("diffs",))
