"""P02: versions are immutable, addressable, uniquely and increasingly named."""

import pyarrow as pa

from checks import long
from mc import driver, harness, hbfs, history
from mc.driver import World

from space import Dataset


def check(ds, world, model, branch, op, result, trace, location, counts):
  names = ("t1", "t2", "b1", "b2")
  fresh = Dataset.load(location)
  v = history.check_all_versions(ds, world, model, trace, branch)
  v = v or history.check_versions_listed(ds, model, trace)
  v = v or history.check_all_versions(fresh, world, model, trace)
  v = v or history.check_versions_listed(fresh, model, trace)
  v = v or history.check_missing_versions(ds, model, trace, names)
  counts["versions_read"] = (counts.get("versions_read", 0) +
                             2 * (len(model.snaps) + len(model.refs)))
  return v


def world_and_ops():
  w = World("versions", [("k", pa.int64()), ("r", pa.binary()),
                         ("v", pa.string())], ["k"], ["r"])
  def r(k, x):
    return w.row(k, b"r" + x.encode(), x)

  def ops(model, branch, trace):
    n = len(trace)
    x = "abcdefghijklmnop"[n]
    out = [
        ("append_from", [[r(1, x)], [r(2, x)]], "file"),
        ("upsert", [r(2, x), r(3, x)], "ar"),
        ("delete", ("cmp", "==", "k", 1), "default"),
        ("delete", ("cmp", ">", "k", 0), "default"),
        ("insert", [r(2, x)], "default"),
    ]
    if branch == "main":
      # Which snapshot a reference added on another branch points to by
      # default is not part of the property.
      if "t1" not in model.refs:
        out.append(("tag", "t1"))
      if "b1" not in model.refs:
        out.append(("branch", "b1"))
    if "t2" not in model.refs and len(model.snaps) > 1:
      out.append(("tag", "t2", sorted(model.snaps)[len(model.snaps) // 2]))
      out.append(("tag", "t2", 0))
    if "t1" in model.refs:
      out.append(("untag", "t1"))
    if "b1" in model.refs:
      out.append(("checkout", "b1" if branch == "main" else "main"))
      if branch == "main":
        out.append(("unbranch", "b1"))
    return out

  return w, ops


# Names that could be taken for something else.
NAMES = ("0", "1", "2", "3", "-1", "1.0", "01", "1e0", " ", " main", "main ",
         "Main", "MAIN", "master", "HEAD", "head", "latest", "current", "None",
         "null", "true", "False", ".", "..", "/", "a/b", "/tmp", "a b", "a\n",
         "\t", "ü", "日本", "*", "?", "[a]", "%s", "{}", "a" * 300, "t1", "T1",
         "tag", "branch", "refs", "metadata", "_", "-", "--", "a.b", "'", '"')


def name_task(item):
  """A tag or branch of that name: reads, listings, diffs, removal."""
  name, kind, other = item
  w, ops = world_and_ops()
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {}}
  d = harness.new_dir("names")
  ds, model, branch, trace = w.create(d), w.model(), "main", []
  steps = [("append", [w.row(1, b"r", "a")], "default"),
           ("append", [w.row(2, b"s", "b")], "default"), (kind, name),
           (kind, name), ("append", [w.row(3, b"t", "c")], "default")]
  if other is not None:
    steps += [("tag", other, 1), ("branch", other)]
  if kind == "branch":
    steps += [("checkout", name), ("append", [w.row(4, b"", "d")], "default"),
              ("delete", ("cmp", "==", "k", 1), "default"), "look",
              ("unbranch", name), ("checkout", "main")]
  else:
    steps += ["look", ("checkout", name)]
  steps += ["look", ("untag" if kind == "tag" else "unbranch", name), "look",
            ("branch", name), ("append", [w.row(5, b"", "e")], "default"),
            "look"]
  v = []
  for op in steps:
    if v:
      break
    if op == "look":
      fresh = Dataset.load(d)
      v = check(ds, w, model, branch, None, None, trace, d, out["counts"])
      v = v or history.check_diffs(fresh, w, model, trace, out["counts"])
      if not v and name not in model.refs:
        v = history.check_missing_versions(ds, model, trace, (name,))
      continue
    trace = trace + [history.show(w, op)]
    v, _, branch = history.act(ds, w, model, op, trace, branch)
    out["transitions"] += 1
  out["violations"] = v
  harness.rm(d)
  return out


def names(report, tier):
  items = [(n, k, None) for n in NAMES for k in ("tag", "branch")]
  # Two names next to each other.
  pairs = [("1", "01"), ("a b", "a"), ("T1", "t1"), ("main ", "Main"),
           ("a/b", "a"), ("a.b", "a"), ("2", "1"), ("ü", "u")]
  if tier != "quick":
    pairs = [(a, b) for a in NAMES for b in NAMES if a != b]
  items += [(a, k, b) for a, b in pairs for k in ("tag", "branch")]
  for r in harness.pmap(name_task, items):
    report.merge(r)
  report.sample({"names": str(items[-1])})
  report.bounds.append(
      f"{len(NAMES)} unusual names (also {len(pairs)} pairs of them) for tags "
      "and branches: read, listed, diffed, moved and removed")


def run(report, tier):
  w, ops = world_and_ops()
  depth = 4 if tier == "quick" else 5
  hbfs.explore(report, w, ops, depth, check)
  report.bounds.append(
      f"all histories of up to {depth} actions over 5 data operations, tags "
      "(current, older and first snapshot), one branch, checkout and removal")
  r = w.row
  rows = lambda x: [r(1, b"", x), r(4, b"z", x)]
  roots = [[("append", rows("p"), "default"), ("tag", "t1"), ("branch", "b1"),
            ("upsert", rows("q"), "file"), ("checkout", "b1"),
            ("append", rows("s"), "default"), ("checkout", "main"),
            ("unbranch", "b1")],
           [("append", rows("p"), "default"), ("branch", "b1"),
            ("checkout", "b1"), ("upsert", rows("q"), "file"),
            ("delete", ("cmp", "==", "k", 1), "default"), ("tag", "t2", 2)]]
  hbfs.explore(report, w, ops, 2 if tier == "quick" else 3, check, roots=roots)
  report.bounds.append("2-3 further actions after 2 longer branch histories")
  long.add(report, tier, long.DATA + long.REFS, ("versions",))
  names(report, tier)
