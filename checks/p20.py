"""P20: a refreshed materialized view equals the view of its source."""

import itertools
import os
from collections import Counter

import pyarrow as pa
import pyarrow.compute as pc

from mc import driver, expr, harness, invariant, sched
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import freeze_row

from checks import long

from space import Dataset, RayOptions
from space.core.utils import errors
from space.core.views import MaterializedView

S = World("source", [("k", pa.int64()), ("v", pa.float64()),
                     ("s", pa.string()), ("r", pa.binary())], ["k"], ["r"])


def row(k, v=None):
  v = float(k) if v is None else float(v)
  return S.row(k, v, f"s{k}", f"r{k}/{v}".encode())


# ----------------------------------------------------------------- views
# Functions given to the code under check, and the same on one row.


def _double(batch):
  batch["v"] = batch["v"] * 2
  return batch


def _double_row(r):
  return dict(r, v=r["v"] * 2)


def _shrink(batch):
  return {"w": batch["v"] + 1, "k": batch["k"]}


def _shrink_row(r):
  return {"w": r["v"] + 1, "k": r["k"]}


def _big(row_):
  return row_["v"] > 2


def _text(batch):
  return {"k": batch["k"], "t": [f"<{x}>" for x in batch["s"]],
          "v": batch["v"], "q": [x + b"!" for x in batch["r"]]}


def _text_row(r):
  return {"k": r["k"], "t": f"<{r['s']}>", "v": r["v"], "q": r["r"] + b"!"}


def _drop_even(batch):
  keep = batch["k"] % 2 == 1
  return {n: a[keep] for n, a in batch.items()}


TEXT = pa.schema([("k", pa.int64()), ("t", pa.string()), ("v", pa.float64()),
                  ("q", pa.binary())])


def _mk_map(ds):
  return ds.map_batches(_double, output_schema=S.schema,
                        output_record_fields=["r"])


def _mk_shrink(ds):
  return ds.map_batches(_shrink, input_fields=["k", "v"], batch_size=2,
                        output_schema=pa.schema([("w", pa.float64()),
                                                 ("k", pa.int64())]))


def _mk_filter(ds):
  return ds.filter(_big)


def _mk_map_filter(ds):
  return ds.map_batches(_text, output_schema=TEXT, output_record_fields=["q"],
                        batch_size=1).filter(_big)


def _mk_filter_map(ds):
  return ds.filter(_big).map_batches(_text, output_schema=TEXT)


def _mk_drop(ds):
  return ds.map_batches(_drop_even, output_schema=S.schema,
                        output_record_fields=["r"])


def _mk_identity(ds):
  return ds


class V:
  """A view: how it is made, its rows, and its world."""

  def __init__(self, name, make, rows, fields, rec):
    self.name, self.make, self.rows = name, make, rows
    self.world = World(name, fields, ["k"], rec)


_SF = list(zip(S.fields, S.schema.types))
_TF = list(zip(TEXT.names, TEXT.types))
VIEWS = {v.name: v for v in [
    V("map", _mk_map, lambda rs: [_double_row(r) for r in rs], _SF, ["r"]),
    V("shrink", _mk_shrink, lambda rs: [_shrink_row(r) for r in rs],
      [("w", pa.float64()), ("k", pa.int64())], []),
    V("filter", _mk_filter, lambda rs: [r for r in rs if r["v"] > 2], _SF,
      ["r"]),
    V("map_filter", _mk_map_filter,
      lambda rs: [_text_row(r) for r in rs if r["v"] > 2], _TF, ["q"]),
    V("filter_map", _mk_filter_map,
      lambda rs: [_text_row(r) for r in rs if r["v"] > 2], _TF, []),
    V("drop", _mk_drop, lambda rs: [r for r in rs if r["k"] % 2], _SF, ["r"]),
    V("identity", _mk_identity, lambda rs: list(rs), _SF, ["r"]),
]}

# ---------------------------------------------------------------- actions

SOURCE = {
    # Fresh keys; one of them passes the filters.
    "a": lambda n: ("append", [row(10 + 2 * n, 1), row(11 + 2 * n, 3)],
                    "default"),
    # Only rows which no filter lets through.
    "e": lambda n: ("append_from", [[row(50 + 2 * n, 0)], [row(60 + 2 * n, 1)]],
                    "file"),
    "u": lambda n: ("upsert", [row(1, n), row(2, n + 2), row(3, 9 - n)],
                    "file"),
    "d": lambda n: ("delete", ("cmp", ">=", "v", 3.0), "default"),
    "p": lambda n: ("delete", ("isin", "k", [1, 3, 10, 13]), "rg"),
    "D": lambda n: ("delete", ("lit", True), "default"),
    "A": lambda n: ("append_from", [[row(20 + 3 * n, 4)], [row(21 + 3 * n, 1)],
                                    [row(22 + 3 * n, 5)]], "filear"),
    "U": lambda n: ("upsert", [row(1, n + 3), row(40, 7)], "ray2:default"),
    # More rows than fit in a small batch.
    "N": lambda n: ("append_from", [[row(k, k % 7) for k in range(300, 430)],
                                    [row(k, k % 5) for k in range(430, 560)]],
                    "file"),
    "M": lambda n: ("upsert", [row(k, n + k % 4) for k in range(310, 550)],
                    "default"),
    "X": lambda n: ("delete", ("and", ("cmp", ">", "k", 301),
                               ("cmp", "<", "k", 558)), "rg"),
}


class Run:
  """One sequence of actions with its handles."""

  def __init__(self, view, out, parallelism=1):
    self.v, self.out = view, out
    self.dir = harness.new_dir("p20")
    self.src = S.create(os.path.join(self.dir, "src"))
    self.model = S.model()
    self.mv = self.v.make(self.src).materialize(os.path.join(self.dir, "mv"))
    self.loaded = None
    self.refreshed = 0
    self.n = 0
    self.p = parallelism
    self.trace = [view.name]
    self.fields = self.v.world.fields

  def done(self):
    harness.rm(self.dir)

  def expect(self, sid=None):
    sid = self.refreshed if sid is None else sid
    rows = self.v.rows(self.model.snaps[sid].rows)
    return Counter(freeze_row(r, self.fields) for r in rows)

  def act(self, a):
    self.trace.append(a)
    self.n += 1
    self.out["transitions"] += 1
    if a in SOURCE:
      op = SOURCE[a](self.n)
      v, _ = driver.step(self.src, S, self.model, op, list(self.trace))
      return v
    if a == "b":
      # A commit on a branch of the source: a gap in the versions of main.
      if "b" not in self.model.refs:
        self.src.add_branch("b")
        self.model.refs["b"] = ("branch", self.model.current)
      self.src.set_current_branch("b")
      v, _ = driver.step(self.src, S, self.model,
                         ("append", [row(90 + self.n, 8)], "default"),
                         list(self.trace), "b")
      self.src.set_current_branch("main")
      return v
    return self.refresh(a)

  def mv_handle(self, a):
    if a == "R":  # a new handle
      return MaterializedView.load(self.mv.storage.location)
    if a == "L":  # another handle, kept
      if self.loaded is None:
        self.loaded = MaterializedView.load(self.mv.storage.location)
      return self.loaded
    return self.mv

  def targets(self):
    chain = self.model.ancestors(self.model.current)
    return chain

  def refresh(self, a, oracle=None):
    """r/R/L: to the newest version; t: to the version before that;
    T: to a tag of it; n: batch size 1, last in first out; g: again."""
    target, kw = None, {}
    goal = self.model.current
    if a in "tT":
      chain = self.targets()
      goal = chain[min(1, len(chain) - 1)]
      target = goal
      if a == "T":
        target = f"tag{self.n}"
        self.src.add_tag(target, goal)
        self.model.refs[target] = ("tag", goal)
    if a == "n":
      kw["batch_size"] = 1
    sched.use(oracle or sched.Schedule(last=a == "n"))
    mv = self.mv_handle(a)
    runner = mv.ray(RayOptions(max_parallelism=self.p))
    results, error = [], None
    try:
      args = [] if target is None else [target]
      results = runner.refresh(*args, **kw)
      sched.drain()
    except Exception as e:  # pylint: disable=broad-except
      error = e
    trace = list(self.trace)
    if goal <= self.refreshed:
      # Nothing to do; how that is reported is not part of the property.
      if error is not None and not isinstance(error, errors.UserInputError):
        return [violation(f"refresh-raised:{type(error).__name__}",
                          exc_str(error), trace)]
      self.out["counts"]["refresh_nothing"] = self.out["counts"].get(
          "refresh_nothing", 0) + 1
    else:
      if error is not None:
        return [violation(f"refresh-raised:{type(error).__name__}",
                          exc_str(error), trace)]
      bad = [r for r in results if r.state.name == "FAILED"]
      if bad:
        return [violation("refresh-failed", str(bad[0]), trace)]
      self.refreshed = goal
      self.out["counts"]["refreshes"] = self.out["counts"].get(
          "refreshes", 0) + 1
    return self.check(trace, runner if a != "R" else None)

  def check(self, trace, runner=None, full=False):
    want = self.expect()
    loc = self.mv.storage.location
    rows = self.v.rows(self.model.snaps[self.refreshed].rows)
    v = driver.expect_bag(
        "view rows", lambda: driver.read_bag(Dataset.load(loc), self.fields),
        want, trace)
    if not v and runner is not None:
      sched.use(sched.Schedule())
      v = driver.expect_bag(
          "view rows read by the handle",
          lambda: driver.bag_of_table(runner.read_all(), self.fields), want,
          trace)
    if not v and full:
      v = driver.expect_bag(
          "view rows read locally", lambda: driver.bag_of_table(
              self.mv.local().read_all(), self.fields), want, trace)
      v = v or driver.expect_bag(
          "rows of the view computed from the source",
          lambda: self.virtual(), self.expect(self.model.current), trace)
      v = v or invariant.check_version(Dataset.load(loc), self.v.world, rows,
                                       trace)
    return v

  def virtual(self):
    view = self.mv.view
    return driver.bag_of_table(
        view.ray(RayOptions(max_parallelism=self.p)).read_all(), self.fields)


def _sequence(item):
  name, seqs, p = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  for seq in seqs:
    run = Run(VIEWS[name], out, p)
    v = []
    for a in seq:
      v = run.act(a)
      if v:
        break
    if not v:
      # However it got here, a final refresh brings the view up to date, and
      # another one changes nothing.
      for a in "rL":
        run.trace.append(a)
        v = v or run.refresh(a)
      v = v or run.check(list(run.trace), full=True)
    out["violations"] += v
    out["states"] += 1
    run.done()
    if len(out["violations"]) > 3:
      break
  out["traces"] = out["transitions"]
  return out


def _useful(seq):
  # Two refreshes without a change in between are tried at the end of every
  # sequence; a sequence must change the source.
  src = set(SOURCE) | {"b"}
  if not any(a in SOURCE for a in seq):
    return False
  return True


def long_sequences(tier):
  """Words repeated until there are more than ten versions, and many keys."""
  quick = tier == "quick"
  out = []
  for name in ("filter", "map") if quick else VIEWS:
    for word in long.words("aeupb" if quick else "aeupbdAU", 2):
      if not any(a in SOURCE for a in word):
        continue
      seq = list(itertools.islice(itertools.cycle(word), 14 if quick else 24))
      out.append((name, tuple(seq), 1))
      some = list(seq)
      for i in range(len(seq) // 3, 0, -1):
        some.insert(3 * i, "rLt"[i % 3])
      out.append((name, tuple(some), 2))
    out += [(name, seq, p) for seq in ("NXr", "NrXr", "NrMrXr", "aNMrXn")
            for p in (1, 3)]
  return out


def sequences(report, tier):
  jobs = []
  deep = {"filter": ("aeubrL", 4), "filter/3": ("aeupdbrLtT", 3),
          "map": ("aupbrRT", 3),
          "shrink": ("AudDrn", 3), "map_filter": ("aAueprt", 3),
          "filter_map": ("aAuernU", 3), "drop": ("aupDrt", 3),
          "identity": ("Audbrn", 3)}
  if tier != "quick":
    deep = {"filter": ("aeudbrLt", 4), "filter/5": ("aeubr", 5),
            "map": ("aupDbrRT", 4), "shrink": ("AudDrnt", 4),
            "map_filter": ("aAueprt", 4), "filter_map": ("aAuernU", 4),
            "drop": ("aupDrtL", 4), "identity": ("AudbrnL", 4)}
  total = 0
  for name, (alphabet, n) in deep.items():
    name = name.split("/")[0]
    seqs = [s for s in itertools.product(alphabet, repeat=n) if _useful(s)]
    total += len(seqs)
    for p in (2,) if name in ("shrink", "filter_map") else (1,):
      for i in range(0, len(seqs), 16):
        jobs.append((name, seqs[i:i + 16], p))
  more = long_sequences(tier)
  total += len(more)
  jobs += [(name, [seq], p) for name, seq, p in more]
  for r in harness.pmap(_sequence, jobs):
    report.merge(r)
  report.bump("sequences", total)
  report.sample({"view": jobs[-1][0], "sequence": "".join(jobs[-1][1][-1])})
  report.bounds.append(
      "7 views (identity, maps, filters and compositions); all sequences of "
      + ", ".join(f"{n} of {len(al)} actions ({k})" for k, (al, n)
                  in deep.items())
      + ": source mutations, commits on a source branch, refreshes to the "
      "newest version, an older one or a tag, by one, another or a new handle; "
      f"{len(more)} sequences of {14 if tier == 'quick' else 24} source "
      "actions that repeat a word of one or two, refreshed at the end or after "
      "every third, and sequences with 260 rows at once")


# ------------------------------------------------- schedules and faults


def _prepared(name, p, seq, out):
  run = Run(VIEWS[name], out, p)
  for a in seq:
    v = run.act(a)
    if v:
      return run, v
  return run, []


def _schedule_task(item):
  name, p, seq, limit = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  n, prefix = 0, []
  while prefix is not None and n < limit:
    run, v = _prepared(name, p, seq, out)
    oracle = sched.Schedule(prefix)
    if not v:
      v = run.refresh("r", oracle)
      for x in v:
        x["trace"] = [x["trace"], {"schedule": oracle.choices()}]
    prefix = sched.following(oracle.log)
    n += 1
    run.done()
    out["violations"] += v
    if len(out["violations"]) > 3:
      break
  out["counts"]["schedules"] = n
  out["states"] = n
  out["traces"] = out["transitions"]
  if prefix is not None and n >= limit:
    out["counts"]["schedules_truncated"] = 1
  return out


class _Inject(sched.Schedule):
  """Runs an action of somebody else at a remote call of the refresh."""

  def __init__(self, at, action):
    super().__init__()
    self.at, self.action, self.busy = at, action, False

  def fault(self, what):
    if self.busy:
      return None
    i = len(self.calls)
    self.calls.append(what)
    if i == self.at:
      from ray import _runtime  # pylint: disable=import-outside-toplevel
      rt = _runtime.RT
      saved = rt.queues
      self.busy = True
      rt.queues = type(saved)()
      try:
        self.action()
      finally:
        rt.queues = saved
        rt.oracle = self
        self.busy = False
    return None


def _fault_task(item):
  name, p, seq = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  run, v = _prepared(name, p, seq, out)
  out["violations"] += v
  if v:
    return out
  oracle = sched.Schedule()
  start = run.refreshed
  v = run.refresh("r", oracle)
  calls = list(oracle.calls)
  run.done()
  out["violations"] += v
  if v:
    return out
  for i, kind in itertools.product(range(len(calls)), (
      "crash", "crash-after", "retry", "refresh", "append")):
    run, v = _prepared(name, p, seq, out)
    loc = run.mv.storage.location
    base = run.model.current
    run.trace.append({"at": f"{i}: {calls[i]}", "event": kind})
    if kind in ("refresh", "append"):

      def action():
        if kind == "append":
          run.act("a")
          return
        other = MaterializedView.load(loc)
        sched.use(sched.Schedule())
        try:
          other.ray(RayOptions(max_parallelism=1)).refresh()
        except errors.UserInputError:
          pass

      sched.use(_Inject(i, action))
    else:
      sched.use(sched.Schedule(fault=(i, kind)))
    error = None
    try:
      run.mv.ray(RayOptions(max_parallelism=p)).refresh()
      sched.drain()
    except Exception as e:  # pylint: disable=broad-except
      error = e
    sched.use(sched.Schedule())
    # The view is at some version from the old to the newest one.
    chain = [s for s in run.model.ancestors(run.model.current) if s >= start]
    wants = {s: run.expect(s) for s in chain}
    try:
      got = driver.read_bag(Dataset.load(loc), run.fields)
    except Exception as e:  # pylint: disable=broad-except
      got = exc_str(e)
    if got not in wants.values():
      v = [violation(f"between-versions:{kind}", f"the view holds {got}, which "
                     f"it holds at no version {chain} of the source; refresh "
                     f"raised {error!r}", list(run.trace))]
    if kind == "retry" and not v and (error is not None or got != wants[base]):
      v = [violation("retry", f"{got}, expected {wants[base]}; {error!r}",
                     list(run.trace))]
    if not v:
      # It is completed later.
      run.trace.append("refresh again")
      try:
        run.refreshed = -1
        v = run.refresh("r") if got != wants[run.model.current] else []
        run.refreshed = run.model.current
        if not v:
          try:
            MaterializedView.load(loc).ray(RayOptions(
                max_parallelism=p)).refresh()
          except errors.UserInputError:
            pass
          v = run.check(list(run.trace), full=True)
      except Exception as e:  # pylint: disable=broad-except
        v = [violation(f"refresh-raised:{type(e).__name__}", exc_str(e),
                       list(run.trace))]
    out["counts"][kind] = out["counts"].get(kind, 0) + 1
    out["violations"] += v
    out["states"] += 1
    run.done()
    if len(out["violations"]) > 3:
      break
  out["traces"] = out["transitions"]
  return out


def interference(report, tier):
  limit = 60 if tier == "quick" else 2000
  items = [("map", 2, "A", limit), ("filter", 2, "AraU", limit),
           ("shrink", 3, "Aru", limit), ("map_filter", 2, "Auu", limit)]
  for r in harness.pmap(_schedule_task, items):
    report.merge(r)
  if report.extra.get("schedules_truncated"):
    report.exhaustive = False
  items = [("map", 2, "Au"), ("filter", 1, "arued"), ("shrink", 2, "aruA"),
           ("filter_map", 1, "aep")]
  if tier != "quick":
    items += [(n, p, s) for n in VIEWS for p in (1, 2, 3)
              for s in ("Auprad", "arDAu", "aebrud")]
  for r in harness.pmap(_fault_task, items):
    report.merge(r)
  report.bounds.append(
      f"refreshes in every order of their tasks (up to {limit}); with one "
      "crash or retry at every remote call; with another refresh or a source "
      "commit in the middle of every remote call")


# --------------------------------------------------------- views of views


def _stacked(item):
  """A materialized view of the dataset of a materialized view."""
  name, seqs = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  for seq in seqs:
    run = Run(VIEWS[name], out)
    top_view = run.mv.dataset.filter(_odd)
    top = top_view.materialize(os.path.join(run.dir, "top"))
    v, fresh = [], False
    for a in tuple(seq) + ("r", "2"):
      if a == "2":
        run.trace.append("refresh the view of the view")
        out["transitions"] += 1
        want = Counter({x: c for x, c in run.expect().items()
                        if x[run.fields.index("k")] % 2})
        sched.use(sched.Schedule())
        try:
          res = top.ray(RayOptions(max_parallelism=1)).refresh()
          bad = [r for r in res if r.state.name == "FAILED"]
          v = [violation("refresh-failed", str(bad[0]), list(run.trace))
              ] if bad else []
        except errors.UserInputError:
          pass
        except Exception as e:  # pylint: disable=broad-except
          v = [violation(f"refresh-raised:{type(e).__name__}", exc_str(e),
                         list(run.trace))]
        v = v or driver.expect_bag(
            "rows of the view of the view", lambda: driver.read_bag(
                Dataset.load(top.storage.location), run.fields), want,
            list(run.trace))
      else:
        v = run.act(a)
      if v:
        break
    out["violations"] += v
    out["states"] += 1
    run.done()
    if len(out["violations"]) > 3:
      break
  out["traces"] = out["transitions"]
  return out


def _odd(row_):
  return row_["k"] % 2 == 1


def stacked(report, tier):
  n = 4 if tier == "quick" else 5
  jobs = []
  for name, al in (("filter", "aebr2"), ("map", "uar2")):
    seqs = [s for s in itertools.product(al, repeat=n)
            if "2" in s and "r" in s and _useful(s)]
    jobs += [(name, seqs[i:i + 8]) for i in range(0, len(seqs), 8)]
  for r in harness.pmap(_stacked, jobs):
    report.merge(r)
  report.bounds.append(f"views of views: all sequences of {n} actions with "
                       "refreshes of both")


def run(report, tier):
  sequences(report, tier)
  interference(report, tier)
  stacked(report, tier)
  report.traces = report.transitions
  report.assumptions += [
      "primary keys of the source are unique and not null, functions are "
      "deterministic, work on single rows and keep the primary keys",
      "the view's storage is written by refreshes only",
      "Ray itself is not installed: /verif/raystub executes the remote calls"]
