"""Explicit-state breadth-first search over the real implementation.

A state is a dataset directory plus the reference model. Every operation of
the alphabet is applied to a private copy of the directory; the successor is
checked, canonicalised and, if new, explored further. Layers are distributed
over worker processes.
"""

from mc import driver, harness
from mc.harness import digest

from space import Dataset

_CTX = {}


def _expand(item):
  """Apply every operation to one state."""
  world, ops_fn, check, key_fn, keep = (
      _CTX["world"], _CTX["ops"], _CTX["check"], _CTX["key"], _CTX["keep"])
  location, model, trace = item
  out = {"children": [], "violations": [], "transitions": 0, "counts": {}}
  for op in ops_fn(model, len(trace)):
    d = harness.new_dir("s")
    driver.copy_tree(location, d)
    m = model.copy()
    t = trace + [driver.show_op(world, op)]
    ds = Dataset.load(d)
    violations, state = driver.step(ds, world, m, op, t)
    out["transitions"] += 1
    name = f"{op[0]}_{state}"
    out["counts"][name] = out["counts"].get(name, 0) + 1
    if not violations:
      violations = check(ds, world, m, op, state, t, d, out)
    if violations:
      out["violations"] += violations
      harness.rm(d)
      continue
    key = digest(key_fn(d, m)) if keep else None
    if keep:
      out["children"].append((key, d, m, t))
    else:
      harness.rm(d)
  return out


def _root(prefix):
  world, check, key_fn = _CTX["world"], _CTX["check"], _CTX["key"]
  out = {"children": [], "violations": [], "transitions": 0, "counts": {}}
  d = harness.new_dir("root")
  world.create(d)
  m, t = world.model(), []
  for op in prefix:
    t = t + [driver.show_op(world, op)]
    bad, state = driver.step(Dataset.load(d), world, m, op, t)
    bad = bad or check(Dataset.load(d), world, m, op, state, t, d, out)
    out["transitions"] += 1
    if bad:
      out["violations"] = bad
      return out
  out["children"].append((digest(key_fn(d, m)), d, m, t))
  return out


def explore(report, world, ops_fn, depth, check, key_fn=None, roots=None,
            max_states=None):
  """Explore all operation sequences up to `depth`.

  ops_fn(model, depth) -> operations; check(ds, world, model, op, state, trace,
  dir, out) -> violations. roots: list of op prefixes applied before depth
  counting starts.
  """
  key_fn = key_fn or (lambda d, m: driver.layout_key(d))
  frontier, seen = [], set()
  _CTX.update(world=world, ops=ops_fn, check=check, key=key_fn, keep=True)
  for r in harness.pmap(_root, roots or [()]):
    report.merge(r)
    for key, d, m, t in r.get("children", []):
      if key in seen:
        harness.rm(d)
      else:
        seen.add(key)
        frontier.append((d, m, t))
  report.states += len(frontier)

  for level in range(depth):
    _CTX.update(world=world, ops=ops_fn, check=check, key=key_fn,
                keep=level < depth - 1)
    nxt, nviol = [], 0
    for r in harness.pmap(_expand, frontier):
      report.merge(r)
      nviol += len(r.get("violations", []))
      for key, d, m, t in r.get("children", []):
        if key in seen:
          harness.rm(d)
        else:
          seen.add(key)
          nxt.append((d, m, t))
    for d, _, _ in frontier:
      harness.rm(d)
    if frontier:
      report.sample({"world": world.name, "trace": frontier[-1][2]}, limit=8)
    frontier = nxt
    report.states += len(frontier)
    if nviol > 200:
      break
    if max_states is not None and len(frontier) > max_states:
      report.exhaustive = False
      report.bump("frontier_truncated", len(frontier) - max_states)
      for d, _, _ in frontier[max_states:]:
        harness.rm(d)
      frontier = frontier[:max_states]
  for d, _, _ in frontier:
    harness.rm(d)
  # Every transition was executed on the real implementation and compared with
  # the model's transition.
  report.traces = report.transitions
