"""P06: one failing file system call at a time, at every call."""

import errno
import os

import pyarrow as pa

from checks import p05
from mc import driver, harness, history, shim
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED

from space import Dataset

CREATE = p05.CREATE
_CTX = {}

# (errno, reads fail too, bytes written by the failing write)
FAULTS = {
    "EIO": (errno.EIO, True, 0),
    "ENOSPC": (errno.ENOSPC, False, 7),
    "EACCES": (errno.EACCES, False, 0),
}


def plan():
  scenarios = p05.worlds()
  reads = [("read", None), ("read", ("cmp", ">", "k", 1)),
           ("readref", None), ("diff", None), ("open", None)]
  out = []
  for w, prefix, ops in scenarios:
    for op in ops:
      out.append((w, prefix, op, None))
  w = scenarios[1][0]
  for prefix in (scenarios[1][1], scenarios[2][1]):
    for op in reads:
      out.append((w, prefix, op, None))
  for lw, prefix, ops in p05.long_worlds("quick"):
    for op in ops[1:] + reads[:1]:
      out.append((lw, prefix, op, None))
  # Another handle commits before the operation.
  other = ("append", [w.row(100, b"o", "other")], "default")
  for i, ops in ((1, scenarios[1][2] + reads[:1] + reads[3:4]),
                 (3, scenarios[3][2][3:5])):
    for op in ops:
      out.append((w, scenarios[i][1], op, other))
  return out


def attempt(ds, world, loc, op):
  """Run `op`; (outcome, detail) with outcome ok, failed or a read result."""
  try:
    if op == CREATE:
      world.create(loc)
      return "ok", None
    if op[0] == "open":
      d = Dataset.load(loc)
      return "value", driver.read_bag(d, world.fields)
    if op[0] == "read":
      kw = {} if op[1] is None else {"filter_": driver.expr.to_arrow(op[1])}
      return "value", driver.read_bag(ds, world.fields, **kw)
    if op[0] == "readref":
      t = ds.local().read_all(fields=["k", "v"], batch_size=1)
      return "value", driver.bag_of_table(t, ["k", "v"])
    if op[0] == "diff":
      return "value", history.impl_diff(ds, world, 0, "t1" if "t1" in
                                        ds.storage.metadata.refs else 1)
    if history.is_ref(op):
      history.impl_ref(ds, op)
      return "ok", None
    r = driver.run_op(ds, world, op)
    return ("ok" if driver.state_of(r) == SUCCEEDED else "failed",
            r.error_message or driver.state_of(r))
  except Exception as e:  # pylint: disable=broad-except
    return "failed", exc_str(e)


def expected_value(world, model, branch, op):
  if op[0] == "diff":
    return history.model_diff(
        model, 0, model.refs["t1"][1] if "t1" in model.refs else 1)
  # A new handle is on main.
  rows = model.rows(branch="main" if op[0] == "open" else branch)
  if op[0] == "read" and op[1] is not None:
    rows = [r for r in rows if driver.expr.evaluate(op[1], r) is True]
  if op[0] == "readref":
    return driver.Counter(driver.freeze_row(r, ["k", "v"]) for r in rows)
  return model.bag(rows)


def follow(ds, world, model, branch, op, trace):
  """A later operation must work; a failed commit may have used up IDs."""
  before = set(model.snaps)
  try:
    ids = set(ds.storage.snapshot_ids)
  except Exception as e:  # pylint: disable=broad-except
    return [violation("follow-up:ids", exc_str(e), trace)]
  m = model.copy()
  v, state = driver.step(ds, world, m, op, trace, branch)
  if v or state != SUCCEEDED:
    return v
  new = set(ds.storage.snapshot_ids) - before
  if len(new) != 1 or min(new) <= max(before):
    return [violation("follow-up:snapshot-id", f"new snapshots {sorted(new)} "
                      f"after {sorted(before)} ({sorted(ids)})", trace)]
  model.max_id = min(new) - 1
  model.apply(op, branch)
  return []


def observe(ds, world, model, branch, trace, full=False):
  return p05.observe(ds, world, model, branch, trace,
                     not (full or _CTX["deep"]))


def judge(ds, world, loc, m0, m1, branch, outcome, detail, trace, i,
          deep, other):
  """State after the fault, and later operations on both handles."""
  fresh = None
  try:
    fresh = Dataset.load(loc)
  except Exception as e:  # pylint: disable=broad-except
    if m0 is not None or outcome == "ok":
      return "broken", [violation("fault:load", exc_str(e), trace)]
  if m0 is None:
    if fresh is None:
      try:
        fresh = world.create(loc)
      except Exception as e:  # pylint: disable=broad-except
        return "broken", [violation("fault:create-again", exc_str(e), trace)]
      seen = "before"
    else:
      seen = "after"
    v = observe(fresh, world, m1, branch, trace)
    if v:
      return "broken", v
    model, ds = m1.copy(), fresh
  else:
    v0 = observe(fresh, world, m0, branch, trace, True)
    seen, model = "before", m0
    if v0:
      v = observe(Dataset.load(loc), world, m1, branch, trace, True)
      seen, model = "after", m1
      if v:
        return "broken", [violation(
            "fault:state", f"outcome {outcome} ({detail}): neither the state "
            f"before ({v0[0]['msg']}) nor after ({v[0]['msg']})", trace)]
    model = model.copy()
    if outcome == "ok" and seen == "before" and \
        history.model_versions(m0) != history.model_versions(m1):
      return seen, [violation("fault:fake-success", "reported success but the "
                              "operation has no effect", trace)]
    # The handle that met the fault.
    if other:
      ds.storage.reload()
    v = observe(ds, world, model, branch, trace + ["same handle"])
    if v:
      v[0]["sig"] = "same-handle:" + v[0]["sig"]
      return seen, v
  todo = p05.follow_ups(world, None)
  a, b = todo[i % 3], todo[(i + 1) % 3]
  t = trace
  v = []
  if deep or i % 2 == 0:
    t = trace + [driver.show_op(world, a)]
    v = follow(ds, world, model, branch, a, t)
    v = v or observe(ds, world, model, branch, t)
  if not v and (deep or i % 2):
    fresh = Dataset.load(loc)
    if branch != "main":
      fresh.set_current_branch(branch)
    t = t + ["fresh handle", driver.show_op(world, b)]
    v = follow(fresh, world, model, branch, b, t)
    v = v or observe(fresh, world, model, branch, t)
  if v:
    v[0]["sig"] = "follow-up:" + v[0]["sig"]
  return seen, v


def _task(item):
  world, prefix, op, other, kind, part, parts = item
  pa.set_cpu_count(1)
  pa.set_io_thread_count(1)
  err, reads, short = FAULTS[kind]
  out = {"violations": [], "states": 0, "transitions": 0, "counts": {},
         "traces": 0, "samples": []}
  src = harness.new_dir("src")
  os.makedirs(src)
  if op == CREATE:
    m0, m1, branch = None, world.model(), "main"
  else:
    _, m0, branch = history.replay(world, os.path.join(src, "ds"), prefix)
    if other:
      m0.apply(other, branch)
    m1 = m0.copy()
    if op[0] not in ("read", "readref", "diff", "open"):
      if history.is_ref(op):
        history.model_ref(m1, op, branch)
      else:
        m1.apply(op, branch)
  reading = op[0] in ("read", "readref", "diff", "open")
  base_trace = [history.show(world, a) for a in prefix]
  if other:
    base_trace.append(["other handle", history.show(world, other)])
  shown = (list(op) if reading or op == CREATE else history.show(world, op))
  n, commit_at, failed_after = part, None, []
  while True:
    base = harness.new_dir("flt")
    driver.copy_tree(src, base)
    loc = os.path.join(base, "ds")
    ds = None
    if op != CREATE:
      ds = Dataset.load(loc)
      if branch != "main":
        ds.set_current_branch(branch)
      if other:
        h = Dataset.load(loc)
        h.set_current_branch(branch)
        driver.run_op(h, world, other)
    if op[0] == "load" and len(op) > 3:
      # Reading the external files may fail, too.
      op[3].directory()
      shim.root(harness.scratch_root())
    else:
      shim.root(base)
    shim.fault(n, err, reads, short)
    outcome, detail = attempt(ds, world, loc, op)
    shim.fault_stop()
    hit = shim.failed_op()
    if not hit:
      harness.rm(base)
      if outcome == "failed":
        out["violations"].append(violation(
            "no-fault", f"{shown} failed without a fault: {detail}",
            base_trace))
      break
    what = hit.replace(base, "")
    if (kind == "ENOSPC" and not what.startswith("write")) or (
        other and not _CTX["deep"] and what.startswith("write") and n % 8):
      # No different from EIO; or from the operation on a fresh handle.
      harness.rm(base)
      n += parts
      continue
    trace = base_trace + [shown, f"{kind} at call {n}: {what}"]
    c = out["counts"]
    c[f"fault_{what.split()[0]}"] = c.get(f"fault_{what.split()[0]}", 0) + 1
    c[f"{outcome}"] = c.get(f"{outcome}", 0) + 1
    v = []
    if outcome == "value":
      want = expected_value(world, m0, branch, op)
      if detail != want:
        v = [violation("fault:wrong-read", f"{detail}, expected {want}",
                       trace)]
    if not v:
      seen, v = judge(ds, world, loc, m0, m1, branch, outcome, detail, trace,
                      n, _CTX["deep"], other)
      if not v and outcome == "failed" and seen == "after" and m0 is not None:
        failed_after.append((n, trace, detail))
    if what.startswith("rename") and "entrypoint" in what.split("/")[-1]:
      commit_at = n
    out["violations"] += v
    out["states"] += 1
    out["transitions"] += 1
    harness.rm(base)
    n += parts
    if len(out["violations"]) > 20:
      break
  # Failure reported, full effect: only if the fault hit after the commit.
  for n, trace, detail in failed_after:
    if commit_at is None or n < commit_at:
      if history.model_versions(m0) != history.model_versions(m1):
        out["violations"].append(violation(
            "fault:hidden-effect", f"reported failure ({detail}) but the "
            "operation took effect", trace))
  if part == 0:
    out["traces"] = 1
    out["samples"] = [{"prefix": base_trace, "op": shown, "fault": kind}]
  harness.rm(src)
  return out


def run(report, tier):
  ops = plan()
  _CTX["deep"] = tier != "quick"
  kinds = ["EIO", "ENOSPC"] if tier == "quick" else list(FAULTS)
  items = []
  for w, prefix, op, other in ops:
    for kind in kinds:
      if op[0] in ("read", "readref", "diff", "open") and kind != "EIO":
        continue
      if kind == "ENOSPC" and tier == "quick" and (len(prefix) > 1 or other):
        continue
      items.append((w, prefix, op, other, kind, 0, 1))
  # The longest operations first.
  cost = {"append_from": 0, "upsert": 1, "insert": 2, "delete": 3}
  items.sort(key=lambda x: (cost.get(x[2][0], 4), -len(x[1])))
  for r in harness.pmap(_task, items):
    report.merge(r)
  report.bump("operations", len(ops))
  report.bounds.append(
      f"each of {len(ops)} operations with one fault ({', '.join(kinds)}) at "
      "every create, write, close, rename, mkdir, unlink and (EIO) open and "
      "read call, also after long histories (quick: ENOSPC after histories of up to one operation); then one operation on the same and one on a fresh handle")
  report.assumptions += ["one fault per operation",
                         "a failing call other than write has no effect"]
