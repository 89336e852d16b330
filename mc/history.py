"""Histories with versions, tags and branches, checked against the model.

Actions: data operations (see driver.run_op), optionally on a branch, and
reference operations. `Hist` pairs the model with the implementation.
"""

from collections import Counter

from mc import driver
from mc.harness import exc_str, violation
from mc.model import FAILED, SKIPPED, SUCCEEDED, freeze_row

from space import Dataset
from space.core.utils import errors

REF_OPS = ("tag", "branch", "untag", "unbranch", "checkout")
DATA_OPS = ("append", "append_from", "insert", "upsert", "delete")
OK = "OK"


def is_ref(op):
  return op[0] in REF_OPS


def model_ref(model, op, branch):
  """Apply a reference op to the model; returns (result, new branch)."""
  kind, name = op[0], op[1]
  if kind in ("tag", "branch"):
    sid = op[2] if kind == "tag" and len(op) > 2 else None
    if sid is None:
      sid = model.current
    if sid not in model.snaps:
      return "VersionNotFoundError", branch
    if not name or name == "main":
      return "UserInputError", branch
    if name in model.refs:
      return "VersionAlreadyExistError", branch
    model.refs[name] = (kind, sid)
    return OK, branch
  if kind in ("untag", "unbranch"):
    if kind == "unbranch" and name == branch:
      return "UserInputError", branch
    want = "tag" if kind == "untag" else "branch"
    if name not in model.refs or model.refs[name][0] != want:
      return "VersionNotFoundError", branch
    del model.refs[name]
    return OK, branch
  if kind == "checkout":
    if name != "main":
      if name not in model.refs:
        return "VersionNotFoundError", branch
      if model.refs[name][0] != "branch":
        return "UserInputError", branch
    return OK, name
  raise ValueError(kind)


def impl_ref(ds, op):
  kind, name = op[0], op[1]
  if kind == "tag":
    ds.add_tag(name, *op[2:])
  elif kind == "branch":
    ds.add_branch(name)
  elif kind == "untag":
    ds.remove_tag(name)
  elif kind == "unbranch":
    ds.remove_branch(name)
  elif kind == "checkout":
    ds.set_current_branch(name)
  else:
    raise ValueError(kind)


def act(ds, world, model, op, trace, branch):
  """One action on implementation and model: (violations, result, branch)."""
  if not is_ref(op):
    v, state = driver.step(ds, world, model, op, trace, branch)
    return v, state, branch
  want, new_branch = model_ref(model, op, branch)
  try:
    impl_ref(ds, op)
    got = OK
  except Exception as e:  # pylint: disable=broad-except
    got = type(e).__name__
    detail = exc_str(e)
    if want == OK:
      return [violation(f"ref-raised:{op[0]}:{got}",
                        f"{op} raised {detail}", trace)], want, new_branch
    if not isinstance(e, (errors.SpaceRuntimeError, errors.UserInputError)):
      return [violation(f"ref-raised:{op[0]}:{got}",
                        f"{op} raised {detail}, expected {want}", trace)
             ], want, new_branch
    # Which of the documented error classes is not part of the property,
    # except that it is one of them.
    return [], want, new_branch
  if want != OK:
    return [violation(f"ref-accepted:{op[0]}",
                      f"{op} succeeded, expected {want}", trace)
           ], want, new_branch
  return [], want, new_branch


def show(world, op):
  return list(op) if is_ref(op) else driver.show_op(world, op)


# ------------------------------------------------------------ observations


def impl_versions(ds):
  """{(snapshot id, tag or branch or None)} as listed by versions()."""
  t = ds.versions()
  return Counter((r["snapshot_id"], r["tag_or_branch"]) for r in t.to_pylist())


def model_versions(model):
  out = Counter()
  by_id = {}
  for name, (_, sid) in model.refs.items():
    by_id.setdefault(sid, []).append(name)
  for sid in model.snaps:
    for name in by_id.get(sid, [None]):
      out[(sid, name)] += 1
  return out


def check_versions_listed(ds, model, trace):
  v = driver.expect_bag("versions()", lambda: impl_versions(ds),
                        model_versions(model), trace)
  if v:
    return v
  got = sorted(ds.storage.snapshot_ids)
  if got != sorted(model.snaps):
    return [violation("snapshot_ids", f"{got} != {sorted(model.snaps)}", trace)]
  return []


def check_all_versions(ds, world, model, trace, branch="main", fields=None):
  """Every version by id, tag and branch, and the current one."""
  f = world.fields
  v = driver.expect_bag("current version", lambda: driver.read_bag(ds, f),
                        model.bag(model.rows(branch=branch)), trace)
  for sid, snap in model.snaps.items():
    if v:
      return v
    v = driver.expect_bag(f"version id",
                          lambda s=sid: driver.read_bag(ds, f, version=s),
                          model.bag(snap.rows), trace)
  for name, (kind, sid) in model.refs.items():
    if v:
      return v
    v = driver.expect_bag(kind,
                          lambda n=name: driver.read_bag(ds, f, version=n),
                          model.bag(model.snaps[sid].rows), trace)
  return v


def expect_error(what, fn, classes, trace):
  """`fn` must raise one of the error classes (by name, or subclass)."""
  try:
    r = fn()
    if hasattr(r, "__next__"):
      r = list(r)
  except Exception as e:  # pylint: disable=broad-except
    if isinstance(e, classes):
      return []
    return [violation(f"wrong-error:{what}:{type(e).__name__}",
                      f"{what} raised {exc_str(e)}", trace)]
  return [violation(f"accepted:{what}", f"{what} was accepted", trace)]


def check_missing_versions(ds, model, trace, names=()):
  v = []
  missing = [max(model.snaps) + 1, max(model.snaps) + 7, "no_such_version"]
  missing += [n for n in names if n not in model.refs]
  for x in missing:
    v = v or expect_error(
        f"read of a version that does not exist",
        lambda x=x: ds.local().read_all(version=x),
        (errors.VersionNotFoundError,), trace + [["read", x]])
  return v


# ------------------------------------------------------------------- diff


def impl_diff(ds, world, start, end, runner=None, **kw):
  """[(snapshot id, 'ADD'|'DELETE', Counter)] in order, merged per run."""
  out = []
  for c in (runner or ds.local()).diff(start, end, **kw):
    fields = world.pk if c.type_.name == "DELETE" else world.fields
    bag = driver.bag_of_table(c.data, fields)
    if out and out[-1][:2] == (c.snapshot_id, c.type_.name):
      out[-1][2].update(bag)
    else:
      out.append((c.snapshot_id, c.type_.name, bag))
  return [x for x in out if x[2]]


def model_diff(model, start, end):
  chain = []
  s = end
  while s != start:
    chain.insert(0, s)
    s = model.snaps[s].parent
  out = []
  for s in chain:
    snap = model.snaps[s]
    if snap.deleted:
      out.append((s, "DELETE", model.keys(snap.deleted)))
    if snap.added:
      out.append((s, "ADD", model.bag(snap.added)))
  return out


def check_diffs(ds, world, model, trace, counts):
  """All pairs of versions: content, order, and rejection of other pairs."""
  names = {}
  for name, (_, sid) in model.refs.items():
    names.setdefault(sid, name)
  ids = sorted(model.snaps)
  for e in ids:
    anc = set(model.ancestors(e))
    for s in ids:
      t = trace + [["diff", s, e]]
      if s == e or s not in anc:
        v = expect_error("diff of versions that are not ordered by ancestry",
                         lambda: ds.local().diff(s, e),
                         (errors.UserInputError,), t)
        if v:
          return v
        counts["diffs_rejected"] = counts.get("diffs_rejected", 0) + 1
        continue
      variants = [(s, e)]
      if s in names or e in names:
        variants.append((names.get(s, s), names.get(e, e)))
      for a, b in variants:
        try:
          got = impl_diff(ds, world, a, b)
        except Exception as ex:  # pylint: disable=broad-except
          return [violation(f"diff-raised:{type(ex).__name__}",
                            f"diff({a}, {b}) raised {exc_str(ex)}", t)]
        want = model_diff(model, s, e)
        if got != want:
          return [violation("diff", f"diff({a}, {b}) returned {got}, expected "
                            f"{want}", t)]
        counts["diffs"] = counts.get("diffs", 0) + 1
  return []


# ------------------------------------------------------------ exploration


def replay(world, location, actions):
  """Create a dataset and run actions; returns (ds, model, branch)."""
  ds = world.create(location)
  model, branch = world.model(), "main"
  for op in actions:
    v, _, branch = act(ds, world, model, op, [], branch)
    if v:
      raise RuntimeError(f"prefix failed: {v}")
  return ds, model, branch
