"""P17: operations that do nothing or are rejected leave no trace."""

import os
import struct

import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq
from array_record.python import array_record_module as ar

from mc import driver, harness, hbfs, history, invariant
from mc.driver import OPTIONS, World
from mc.harness import exc_str, violation
from mc.model import FAILED, SKIPPED, freeze_row

from checks import long

from space import Dataset

W = World("rejected", [("r", pa.binary()), ("k", pa.int64()),
                       ("v", pa.string())], ["k"], ["r"])
EXT = []
_CTX = {}


class Boom(Exception):
  """Raised by user code inside an operation."""


def row(k, x):
  return W.row(b"r%d" % k + x.encode(), k, x)


def table(*ks):
  return W.table([row(k, "z") for k in ks])


def boom():
  raise Boom("user code failed")


def failing(*tables):
  def fn():
    yield from tables
    boom()
  return fn


def rejected(model, branch):
  """[(name, expected result, fn(ds, location))].

  Expected: SKIPPED or FAILED if prescribed; "none": anything but success, be
  it a state or an exception; "skip-or-raise" alike.
  """
  keys = sorted({r["k"] for r in model.rows(branch=branch)})
  out = []
  add = lambda name, want, fn: out.append((name, want, fn))
  run = lambda ds, o="default": ds.local(OPTIONS[o])

  # Nothing to do.
  add("append-empty", SKIPPED, lambda ds, d: run(ds).append(table()))
  add("append-empty-dict", SKIPPED, lambda ds, d: run(ds).append(
      {"r": pa.array([], pa.binary()), "k": pa.array([], pa.int64()),
       "v": pa.array([], pa.string())}))
  add("append-from-nothing", SKIPPED,
      lambda ds, d: run(ds).append_from(lambda: iter([])))
  add("append-from-no-source", SKIPPED, lambda ds, d: run(ds).append_from([]))
  add("append-from-empty", SKIPPED, lambda ds, d: run(ds, "filear").append_from(
      [lambda: iter([table(), table()]), lambda: iter([])]))
  add("insert-empty", SKIPPED, lambda ds, d: run(ds).insert(table()))
  add("upsert-empty", SKIPPED, lambda ds, d: run(ds).upsert(table()))
  add("delete-none", SKIPPED,
      lambda ds, d: run(ds).delete(pc.field("k") == 99))
  add("delete-false", SKIPPED, lambda ds, d: run(ds).delete(pc.scalar(False)))
  add("delete-unprunable", SKIPPED, lambda ds, d: run(ds).delete(
      pc.field("v").is_null() | (pc.field("v") == "nope")))
  add("load-rejected-record-dataset", "none",
      lambda ds, d: run(ds).append_parquet(f"{EXT[0]}/nothing*"))
  add("load-no-files", SKIPPED, lambda ds, d: run(ds).append_array_record(
      f"{EXT[0]}/nothing*", lambda r: boom()))
  add("load-empty-file", SKIPPED, lambda ds, d: run(ds).append_array_record(
      f"{EXT[0]}/empty.rec", lambda r: boom()))

  # Keys.
  add("insert-repeated", FAILED, lambda ds, d: run(ds, "filear").insert(
      table(71, 72, 71)))
  add("upsert-repeated", FAILED, lambda ds, d: run(ds).upsert(table(71, 71)))
  if keys:
    add("insert-existing", FAILED, lambda ds, d: run(ds).insert(
        table(71, keys[0], 72)))
    add("insert-existing-last", FAILED, lambda ds, d: run(ds, "rgar").insert(
        table(keys[-1])))
    add("upsert-existing-repeated", FAILED, lambda ds, d: run(ds).upsert(
        table(keys[0], 71, keys[0])))

  # Incompatible data.
  t = table(71, 72)
  wrong = t.set_column(1, "k", pa.array(["a", "b"]))
  bad_value = t.set_column(2, "v", pa.array([1.5, 2.5]))
  add("append-missing-key", "none",
      lambda ds, d: run(ds).append(t.drop(["k"])))
  add("append-missing-record", "none",
      lambda ds, d: run(ds).append(t.drop(["r"])))
  add("append-missing-dict", "none", lambda ds, d: run(ds).append({"k": [1]}))
  for kind in ("append", "insert", "upsert"):
    for o in ("default", "filear"):
      add(f"{kind}-wrong-key-type-{o}", "none",
          lambda ds, d, kind=kind, o=o: getattr(run(ds, o), kind)(wrong))
      add(f"{kind}-wrong-type-{o}", "none",
          lambda ds, d, kind=kind, o=o: getattr(run(ds, o), kind)(bad_value))
  add("append-record-not-bytes", "none", lambda ds, d: run(ds).append(
      t.set_column(0, "r", pa.array([1, 2]))))
  add("append-from-second-wrong", "none", lambda ds, d: run(
      ds, "filear").append_from(lambda: iter([table(71), wrong])))
  add("insert-wrong-key-name", "none", lambda ds, d: run(ds).insert(
      t.rename_columns(["r", "kk", "v"])))
  add("append-not-data", "none", lambda ds, d: run(ds).append(17))

  # Failing user code.
  for o in ("default", "filear"):
    add(f"iterator-fails-{o}", "none", lambda ds, d, o=o: run(
        ds, o).append_from(failing(table(71), table(72))))
    add(f"second-source-fails-{o}", "none", lambda ds, d, o=o: run(
        ds, o).append_from([lambda: iter([table(71)]), failing()]))
  add("source-fails", "none", lambda ds, d: run(ds).append_from(boom))
  add("index-fn-fails", "none", lambda ds, d: run(ds).append_array_record(
      f"{EXT[0]}/b.rec", lambda r: boom()))
  def second_fails():
    seen = []
    def fn(r):
      seen.append(r)
      return {"k": 81, "v": "i"} if len(seen) < 3 else boom()
    return fn
  add("index-fn-fails-later", "none",
      lambda ds, d: run(ds, "file").append_array_record(
          f"{EXT[0]}/*.rec", second_fails()))
  add("index-fn-wrong-type", "none", lambda ds, d: run(ds).append_array_record(
      f"{EXT[0]}/b.rec", lambda r: {"k": "text", "v": "i"}))
  add("load-not-a-file", "none", lambda ds, d: run(ds).append_array_record(
      f"{EXT[0]}/garbage", lambda r: {"k": 1, "v": "i"}))

  def transaction(ds, d):
    with ds.storage.transaction():
      boom()
  add("transaction-abandoned", "none", transaction)
  def uncommitted(ds, d):
    with ds.storage.transaction() as txn:
      pass
    txn.result()
  add("transaction-uncommitted", "none", uncommitted)

  # Filters over unknown fields.
  add("delete-unknown-field", "none",
      lambda ds, d: run(ds).delete(pc.field("nope") == 1))
  add("delete-wrong-literal", "none",
      lambda ds, d: run(ds).delete(pc.field("k") == "text"))
  add("read-unknown-field", "none", lambda ds, d: ds.local().read_all(
      filter_=pc.field("nope") == 1) or boom())

  # Versions and references.
  some_tag = [n for n, (kind, _) in model.refs.items() if kind == "tag"]
  some_branch = [n for n, (kind, _) in model.refs.items() if kind == "branch"]
  add("tag-reserved", "none", lambda ds, d: ds.add_tag("main"))
  add("tag-empty", "none", lambda ds, d: ds.add_tag(""))
  add("tag-missing-snapshot", "none", lambda ds, d: ds.add_tag("t9", 99))
  add("branch-reserved", "none", lambda ds, d: ds.add_branch("main"))
  add("untag-missing", "none", lambda ds, d: ds.remove_tag("t9"))
  add("unbranch-missing", "none", lambda ds, d: ds.remove_branch("b9"))
  add("unbranch-main", "none", lambda ds, d: ds.remove_branch("main"))
  add("checkout-missing", "none", lambda ds, d: ds.set_current_branch("b9"))
  for n in some_tag[:1]:
    add("tag-again", "none", lambda ds, d: ds.add_tag(n))
    add("branch-named-as-tag", "none", lambda ds, d: ds.add_branch(n))
    add("unbranch-tag", "none", lambda ds, d: ds.remove_branch(n))
    add("checkout-tag", "none", lambda ds, d: ds.set_current_branch(n))
  for b in some_branch[:1]:
    add("branch-again", "none", lambda ds, d: ds.add_branch(b))
    add("tag-named-as-branch", "none", lambda ds, d: ds.add_tag(b))
    add("untag-branch", "none", lambda ds, d: ds.remove_tag(b))
    if branch == b:
      add("unbranch-current", "none", lambda ds, d: ds.remove_branch(b))
  add("read-missing-version", "none",
      lambda ds, d: ds.local().read_all(version=99) or boom())
  add("read-missing-name", "none",
      lambda ds, d: ds.local().read_all(version="t9") or boom())
  add("diff-missing", "none", lambda ds, d: list(ds.local().diff(0, 99)))
  add("diff-same", "none", lambda ds, d: list(ds.local().diff(0, 0)))

  # Creating over it.
  other = pa.schema([("a", pa.int64())])
  add("create-over", "none", lambda ds, d: Dataset.create(d, other, ["a"], []))
  add("create-over-same", "none", lambda ds, d: W.create(d))
  add("create-invalid-over", "none",
      lambda ds, d: Dataset.create(d, other, ["b"], []))
  add("load-elsewhere", "none", lambda ds, d: Dataset.load(d + "/metadata"))
  return out


def follow_ups(x):
  return [
      [("append", [row(71, x), row(1, x)], "default"),
       ("delete", ("cmp", "==", "k", 1), "file")],
      [("upsert", [row(2, x), row(72, x)], "filear"), ("tag", "t8"),
       ("insert", [row(73, x)], "default")],
      [("delete", ("cmp", "<=", "k", 2), "default"), ("branch", "b8"),
       ("checkout", "b8"), ("append", [row(71, x)], "default"),
       ("checkout", "main")],
  ]


def snapshot_of(location, model):
  """Everything observable, through a fresh handle."""
  ds = Dataset.load(location)
  return (driver.layout_key(location, model.current),
          sorted(history.impl_versions(ds).items(), key=repr),
          [(s, invariant.totals(ds, s)) for s in sorted(model.snaps)],
          [(n, invariant.totals(ds, s))
           for n, (_, s) in sorted(model.refs.items())],
          str(ds.schema), ds.primary_keys, ds.record_fields)


def one(location, model, branch, trace, names, follow, out):
  """Run rejected operations on one handle, then normal ones."""
  d = harness.new_dir("j")
  driver.copy_tree(location, d)
  try:
    model = model.copy()
    before = snapshot_of(d, model)
    ds = Dataset.load(d)
    if branch != "main":
      ds.set_current_branch(branch)
    for name in names:
      want, fn = next((w, f) for n, w, f in rejected(model, branch)
                      if n == name)
      t = trace + [["rejected", name]]
      out["transitions"] += 1
      try:
        r = fn(ds, d)
        got = r.state.name if hasattr(r, "state") else "accepted"
      except Exception as e:  # pylint: disable=broad-except
        got = "raised"
        detail = exc_str(e)
        if want != "none":
          return [violation(f"raised:{name}", f"{detail}, expected {want}", t)]
      if got in ("accepted", "SUCCEEDED") and not (
          name.startswith("delete-") and not model.rows(branch=branch)):
        return [violation(f"accepted:{name}", f"{name} gave {got}", t)]
      if want != "none" and got != want:
        return [violation(f"state:{name}", f"{got}, expected {want}", t)]
      out["counts"][got] = out["counts"].get(got, 0) + 1
    trace = trace + [["rejected", n] for n in names]
    after = snapshot_of(d, model)
    if after != before:
      return [violation("trace-left", f"before {before}\nafter {after}", trace)]
    v = history.check_all_versions(ds, W, model, trace, branch)
    v = v or history.check_versions_listed(ds, model, trace)
    if v:
      return v
    for op in follow:
      t = trace + [history.show(W, op)]
      v, _, branch = history.act(ds, W, model, op, t, branch)
      v = v or driver.expect_bag(
          "read after a rejected operation",
          lambda: driver.read_bag(ds, W.fields),
          model.bag(model.rows(branch=branch)), t)
      out["transitions"] += 1
      if v:
        return v
    if follow:
      fresh = Dataset.load(d)
      v = history.check_all_versions(fresh, W, model, t)
      v = v or history.check_versions_listed(fresh, model, t)
      v = v or history.check_diffs(fresh, W, model, t, out["counts"])
      v = v or invariant.check_version(fresh, W, model.rows(), t, None, None,
                                       external=True)
    return v
  finally:
    harness.rm(d)


def _task(item):
  actions, chunk, nchunks, pairs = item
  out = {"violations": [], "counts": {}, "transitions": 0, "samples": []}
  loc = harness.new_dir("p")
  _, model, branch = history.replay(W, loc, actions)
  trace = [history.show(W, a) for a in actions]
  names = [n for n, _, _ in rejected(model, branch)]
  x = "abcdefgh"[len(actions) % 8]
  follow = follow_ups(x)
  for i, n in enumerate(names):
    if i % nchunks != chunk:
      continue
    for j, f in enumerate(follow if pairs != "one" else
                          [follow[(i + len(actions)) % len(follow)]]):
      # Every rejected operation alone, and after every second one on the
      # same handle.
      before = [[]]
      if pairs == "all":
        before += [[m] for m in names[j::len(follow)]]
      for b in before:
        v = one(loc, model, branch, trace, b + [n], f, out)
        out["violations"] += v
  harness.rm(loc)
  out["traces"] = out["transitions"]
  out["states"] = 1 if chunk == 0 else 0
  return out


def histories(depth):
  def ops(model, branch, n):
    x = "abcdefgh"[n]
    out = [
        ("append_from", [[row(1, x)], [row(2, x), row(3, x)]], "filear"),
        ("upsert", [row(2, x), row(4, x)], "default"),
        ("delete", ("cmp", "==", "k", 2), "default"),
    ]
    if branch == "main" and "t1" not in model.refs:
      out.append(("tag", "t1"))
    if branch == "main" and "b1" not in model.refs:
      out.append(("branch", "b1"))
    if "b1" in model.refs:
      out.append(("checkout", "b1" if branch == "main" else "main"))
    return out
  result, layer = [[]], [([], W.model(), "main")]
  for n in range(depth):
    nxt = []
    for actions, model, branch in layer:
      for op in ops(model, branch, n):
        m = model.copy()
        if history.is_ref(op):
          res, b = history.model_ref(m, op, branch)
        else:
          res, b = m.apply(op, branch), branch
        if res in ("OK", "SUCCEEDED"):
          nxt.append((actions + [op], m, b))
    layer = nxt
    result += [a for a, _, _ in layer]
  return result


def invalid_creations(_):
  """Nothing is left behind where no dataset could be created."""
  ok = pa.schema([("k", pa.int64()), ("r", pa.binary())])
  cases = [
      ("unknown key", ok, ["x"], []),
      ("unknown record field", ok, ["k"], ["x"]),
      ("no such type", pa.schema([("k", pa.int64()), ("m", pa.duration("s"))]),
       ["k"], []),
      ("record field type", ok, ["r"], ["k"]),
      ("duplicated", pa.schema([("k", pa.int64()), ("k", pa.int64())]), ["k"],
       []),
      ("no key", ok, [], []),
  ]
  out = {"violations": [], "transitions": 0}
  for name, schema, pk, rec in cases:
    loc = harness.new_dir("c")
    out["transitions"] += 1
    try:
      Dataset.create(loc, schema, pk, rec)
      out["violations"].append(violation(f"created:{name}", "creation succeeded", [name]))
    except Exception:  # pylint: disable=broad-except
      pass
    try:
      Dataset.load(loc)
      out["violations"].append(violation(f"left:{name}", "a dataset exists", [name]))
    except Exception:  # pylint: disable=broad-except
      pass
    # The place is still usable.
    try:
      ds = Dataset.create(loc, ok, ["k"], ["r"])
      res = ds.local().append(pa.table({"k": [1], "r": [b"x"]}, schema=ok))
      n = ds.local().read_all().num_rows
      if res.state.name != "SUCCEEDED" or n != 1:
        raise RuntimeError(f"{res} {n}")
    except Exception as e:  # pylint: disable=broad-except
      out["violations"].append(violation(f"unusable:{name}", exc_str(e), [name]))
    harness.rm(loc)
  return out


def make_files():
  for name, recs in (("empty.rec", []), ("a.rec", [b"a"]),
                     ("b.rec", [b"b", b"c", b"d"])):
    w = ar.ArrayRecordWriter(os.path.join(EXT[0], name), options="")
    for b in recs:
      w.write(b)
    w.close()
  with open(os.path.join(EXT[0], "garbage"), "wb") as f:
    f.write(b"this is not an ArrayRecord file" * 10)


def run(report, tier):
  EXT[:] = [os.path.join(harness.scratch_root(), "ext17")]
  os.makedirs(EXT[0])
  harness.in_child(make_files)
  depth = 2 if tier == "quick" else 3
  hs = histories(depth)
  n = 4
  items = [(h, c, n, "one" if len(h) == depth else "") for h in hs
           for c in range(n)]
  # Pairs of rejected operations on one handle.
  rich = [("append_from", [[row(1, "p")], [row(2, "p"), row(3, "p")]],
           "filear"), ("tag", "t1"), ("branch", "b1"),
          ("upsert", [row(2, "q")], "default")]
  if tier != "quick":
    items += [(rich, c, 16, "all") for c in range(16)]
  else:
    items += [(rich, c, 4, "") for c in range(4)]
  for word in ("AU", "OFD", "ABC"):  # more than ten versions
    h = list(long.expand(word, 12, W, lambda k, n: row(k, f"v{n}")))
    items += [(h, c, 8, "") for c in range(8)][:3 if tier == "quick" else 8]
  for r in harness.pmap(_task, items):
    report.merge(r)
  for r in harness.pmap(invalid_creations, [None]):
    report.merge(r)
  report.traces = report.transitions
  report.bounds += [
      f"all {len(hs)} histories of up to {depth} of 6 actions; about 60 "
      "rejected operations in each, followed by 1 or all of 3 sequences of "
      "normal operations on the same handle"]
  if tier != "quick":
    report.bounds.append("all pairs of rejected operations on one handle")
