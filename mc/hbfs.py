"""Breadth-first search over histories with versions and references.

Unlike bfs.py, two states are merged only if their whole observable histories
(all snapshots, references, branch) and the layouts of all live heads agree.
"""

from mc import driver, harness, history
from mc.harness import digest

from space import Dataset

_CTX = {}


def hist_key(location, model, branch):
  snaps = [(i, sorted(map(repr, model.bag(s.rows).items())), s.parent,
            sorted(map(repr, model.bag(s.added).items())),
            sorted(map(repr, model.bag(s.deleted).items())))
           for i, s in sorted(model.snaps.items())]
  heads = sorted({model.current} | {s for _, s in model.refs.values()})
  return repr((snaps, sorted(model.refs.items()), model.current, model.max_id,
               branch, [driver.layout_key(location, h) for h in heads]))


def _expand(item):
  world, ops_fn, check, keep = (
      _CTX["world"], _CTX["ops"], _CTX["check"], _CTX["keep"])
  location, model, branch, trace = item
  out = {"children": [], "violations": [], "transitions": 0, "counts": {}}
  for op in ops_fn(model, branch, trace):
    d = harness.new_dir("h")
    driver.copy_tree(location, d)
    m = model.copy()
    t = trace + [history.show(world, op)]
    ds = Dataset.load(d)
    if branch != "main":
      ds.set_current_branch(branch)
    violations, result, b = history.act(ds, world, m, op, t, branch)
    out["transitions"] += 1
    name = f"{op[0]}_{result}"
    out["counts"][name] = out["counts"].get(name, 0) + 1
    if not violations:
      violations = check(ds, world, m, b, op, result, t, d, out["counts"])
    if violations:
      out["violations"] += violations
      harness.rm(d)
      continue
    if keep:
      out["children"].append((digest(hist_key(d, m, b)), d, m, b, t))
    else:
      harness.rm(d)
  return out


def _root(prefix):
  world, check = _CTX["world"], _CTX["check"]
  out = {"children": [], "violations": [], "transitions": 0, "counts": {}}
  d = harness.new_dir("hroot")
  ds, m, b = world.create(d), world.model(), "main"
  t = []
  for op in prefix:
    t = t + [history.show(world, op)]
    bad, res, b = history.act(ds, world, m, op, t, b)
    bad = bad or check(ds, world, m, b, op, res, t, d, out["counts"])
    out["transitions"] += 1
    if bad:
      out["violations"] = bad
      return out
  out["children"].append((d, m, b, t))
  return out


def explore(report, world, ops_fn, depth, check, roots=None):
  """ops_fn(model, branch, trace) -> ops; check(ds, world, model, branch, op,
  result, trace, dir, counts) -> violations."""
  frontier, seen = [], set()
  _CTX.update(world=world, ops=ops_fn, check=check, keep=True)
  for r in harness.pmap(_root, roots or [()]):
    report.merge(r)
    frontier += r.get("children", [])
  report.states += len(frontier)
  for level in range(depth):
    _CTX.update(world=world, ops=ops_fn, check=check, keep=level < depth - 1)
    nxt, nviol = [], 0
    for r in harness.pmap(_expand, frontier):
      report.merge(r)
      nviol += len(r.get("violations", []))
      for key, d, m, b, t in r.get("children", []):
        if key in seen:
          harness.rm(d)
        else:
          seen.add(key)
          nxt.append((d, m, b, t))
    for x in frontier:
      harness.rm(x[0])
    if frontier:
      report.sample({"world": world.name, "trace": frontier[-1][3]}, limit=8)
    frontier = nxt
    report.states += len(frontier)
    if nviol > 200:
      break
  for x in frontier:
    harness.rm(x[0])
  report.traces = report.transitions
