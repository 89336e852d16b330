"""P23: a catalog shows exactly the datasets that exist."""

import itertools
import os
import shutil
from collections import Counter

import pyarrow as pa

from mc import driver, harness, sched
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import freeze_row

from space import Dataset, DirCatalog, RayOptions
from space.core.utils import errors
from space.core.views import MaterializedView

A = World("A", [("k", pa.int64()), ("v", pa.float64()), ("r", pa.binary())],
          ["k"], ["r"])
B = World("B", [("s", pa.string()), ("k", pa.int64()), ("v", pa.float64())],
          ["k", "s"])
WORLDS = {"A": A, "B": B}
NAMES = ("x", "y", "z")


def make_row(world, k):
  value = {"k": k, "v": float(k), "r": b"r%d" % k, "s": f"s{k}"}
  return {f: value[f] for f in world.fields}


def _odd(row):
  return row["k"] % 2 == 1


def _twice(batch):
  batch["v"] = batch["v"] * 2
  return batch


VIEWS = {
    "f": (lambda ds, w: ds.filter(_odd),
          lambda rows: [r for r in rows if r["k"] % 2 == 1]),
    "m": (lambda ds, w: ds.map_batches(_twice, w.schema,
                                       output_record_fields=w.rec),
          lambda rows: [dict(r, v=r["v"] * 2) for r in rows]),
}


class Entry:
  """What the catalog should hold under a name."""

  def __init__(self, world, view=None, source=None):
    self.world, self.view, self.source = world, view, source
    self.rows = []
    self.version = 0


class Session:
  """A catalog, its handles and the reference model."""

  def __init__(self, style, out):
    self.out = out
    self.dir = harness.new_dir("p23")
    os.makedirs(os.path.join(self.dir, "cat"))
    self.loc = os.path.join(self.dir, "cat") + style
    self.cat = DirCatalog(self.loc)
    self.model = {}
    self.handles = {}
    self.n = 0
    self.trace = []

  def done(self):
    harness.rm(self.dir)

  def path(self, name):
    return os.path.join(self.dir, "cat", name)

  # -- actions; each returns violations
  def act(self, a):
    self.trace.append(list(a))
    self.out["transitions"] += 1
    self.n += 1
    try:
      v = getattr(self, "do_" + a[0])(*a[1:])
    except Exception as e:  # pylint: disable=broad-except
      v = [violation(f"raised:{a[0]}:{type(e).__name__}", exc_str(e),
                     list(self.trace))]
    return v or self.check()

  def bad(self, sig, msg):
    return [violation(sig, msg, list(self.trace))]

  def refused(self, what, fn, *types):
    """The call must raise one of the given errors."""
    try:
      fn()
    except types:
      return []
    except Exception as e:  # pylint: disable=broad-except
      return self.bad(f"wrong-error:{what}:{type(e).__name__}",
                      f"{what} raised {exc_str(e)}")
    return self.bad(f"accepted:{what}", f"{what} was accepted")

  def do_create(self, name, w):
    world = WORLDS[w]
    fn = lambda: self.cat.create_dataset(name, world.schema, world.pk,
                                         world.rec)
    if name in self.model:
      return self.refused("creation over an existing dataset", fn,
                          errors.StorageExistError)
    self.handles[name] = fn()
    self.model[name] = Entry(world)
    return []

  def do_other(self, name, w):
    """Created by another catalog object, while this one exists."""
    mine, self.cat = self.cat, DirCatalog(self.loc)
    try:
      return self.do_create(name, w)
    finally:
      self.cat = mine

  def do_direct(self, name, w):
    """Created at the location without the catalog."""
    if name in self.model:
      return self.refused(
          "direct creation", lambda: WORLDS[w].create(self.path(name)),
          errors.StorageExistError)
    self.handles[name] = WORLDS[w].create(self.path(name))
    self.model[name] = Entry(WORLDS[w])
    return []

  def do_invalid(self, name):
    cases = [(A.schema, ["nope"], []), (A.schema, ["k"], ["nope"]),
             (pa.schema([("k", pa.int64()), ("d", pa.decimal128(5, 2))]),
              ["k"], [])]
    v = []
    for schema, pk, rec in cases:
      v = v or self.refused(
          "an invalid dataset",
          lambda: self.cat.create_dataset(name, schema, pk, rec), Exception)
    return v

  def do_view(self, name, source, kind):
    src = self.handles.get(source)
    if src is None:
      return self.refused("a missing source", lambda: self.cat.dataset(source),
                          errors.StorageNotFoundError)
    if isinstance(src, MaterializedView):
      src = src.dataset
    world = self.model[source].world
    view = VIEWS[kind][0](src, world)
    if name in self.model:
      return self.refused("a view over an existing dataset",
                          lambda: self.cat.materialize(name, view),
                          errors.StorageExistError)
    self.handles[name] = self.cat.materialize(name, view)
    self.model[name] = Entry(world, kind, source)
    return []

  def do_append(self, name):
    """Written through the catalog or an old handle in turn."""
    if name not in self.model or self.model[name].view:
      return []
    e = self.model[name]
    rows = [make_row(e.world, 2 * self.n), make_row(e.world, 2 * self.n + 1)]
    ds = self.cat.dataset(name) if self.n % 2 else self.handles[name]
    res = ds.local().append(e.world.table(rows))
    if res.state.name != "SUCCEEDED":
      return self.bad("append", str(res))
    e.rows = e.rows + rows
    e.version += 1
    return []

  def do_refresh(self, name):
    e = self.model.get(name)
    if e is None or not e.view:
      return []
    sched.use(sched.Schedule())
    mv = self.cat.dataset(name) if self.n % 2 else self.handles[name]
    try:
      mv.ray(RayOptions(max_parallelism=1)).refresh()
    except errors.UserInputError:
      if e.version != self.model[e.source].version:
        raise
    e.rows = VIEWS[e.view][1](self.model[e.source].rows)
    e.version = self.model[e.source].version
    return []

  def do_unknown(self, name):
    if name in self.model:
      return []
    return self.refused("a missing dataset", lambda: self.cat.dataset(name),
                        errors.StorageNotFoundError)

  def do_delete(self, name):
    return self.refused("delete_dataset",
                        lambda: self.cat.delete_dataset(name),
                        NotImplementedError)

  def do_stray(self, name, what):
    """Something that is not a dataset appears in the directory."""
    p = self.path(name)
    if os.path.exists(p):
      return []
    if what == "file":
      with open(p, "w", encoding="utf-8") as f:
        f.write("not a dataset")
    elif what == "empty":
      os.makedirs(p)
    elif what == "half":
      # An interrupted creation.
      os.makedirs(os.path.join(p, "metadata"))
      os.makedirs(os.path.join(p, "data"))
    v = self.refused("a stray " + what, lambda: self.cat.dataset(name),
                     errors.StorageNotFoundError)
    v = v or self.check()
    if what == "file":
      os.remove(p)
    # Directories stay, and a dataset may be created there.
    return v

  def do_move(self, name, to):
    if name not in self.model or to in self.model or os.path.exists(
        self.path(to)) or any(e.source == name for e in self.model.values()):
      return []
    os.rename(self.path(name), self.path(to))
    self.model[to] = self.model.pop(name)
    self.handles.pop(name)
    self.handles[to] = self.cat.dataset(to)
    return []

  def do_drop(self, name):
    if name not in self.model or any(
        e.source == name for e in self.model.values()):
      return []
    shutil.rmtree(self.path(name))
    self.model.pop(name)
    self.handles.pop(name)
    return []

  # -- observation
  def check(self):
    self.out["states"] += 1
    for cat in (self.cat, DirCatalog(self.loc)):
      infos = cat.datasets()
      if sorted(i.name for i in infos) != sorted(self.model):
        return self.bad("listing", f"lists {sorted(i.name for i in infos)}, "
                        f"expected {sorted(self.model)}")
      for i in infos:
        if os.path.realpath(i.location) != os.path.realpath(self.path(i.name)):
          return self.bad("location", f"{i} is not at {self.path(i.name)}")
    for name in NAMES:
      if name not in self.model:
        v = self.refused("a missing dataset", lambda: self.cat.dataset(name),
                         errors.StorageNotFoundError)
        if v:
          return v
    for name, e in self.model.items():
      got = self.cat.dataset(name)
      kind = MaterializedView if e.view else Dataset
      if not isinstance(got, kind):
        return self.bad("kind", f"{name} opens as {type(got)}")
      st = got.storage
      if (st.logical_schema.names != e.world.fields
          or st.logical_schema.types != e.world.schema.types
          or st.primary_keys != e.world.pk
          or sorted(st.record_fields) != sorted(e.world.rec)):
        return self.bad("schema", f"{name} has {st.logical_schema}, "
                        f"{st.primary_keys}, {st.record_fields}")
      if st.metadata.current_snapshot_id != e.version:
        return self.bad("version", f"{name} is at version "
                        f"{st.metadata.current_snapshot_id}, not {e.version}")
      want = Counter(freeze_row(r, e.world.fields) for r in e.rows)
      for what, h in (("opened", got), ("old handle of", self.handles[name])):
        v = driver.expect_bag(
            f"{what} {name}", lambda: driver.read_bag(h, e.world.fields), want,
            list(self.trace))
        if v:
          return v
      if e.view:
        src = [d.storage.location for d in got.view.sources.values()]
        if [os.path.realpath(x) for x in src] != [
            os.path.realpath(self.path(e.source))]:
          return self.bad("source", f"{name} has the sources {src}")
        sched.use(sched.Schedule())
        rows = VIEWS[e.view][1](self.model[e.source].rows)
        v = driver.expect_bag(
            f"rows of view {name}", lambda: driver.bag_of_table(
                got.view.ray(RayOptions(max_parallelism=1)).read_all(),
                e.world.fields),
            Counter(freeze_row(r, e.world.fields) for r in rows),
            list(self.trace))
        if v:
          return v
    return []


CORE = [("create", "x", "A"), ("create", "y", "B"), ("append", "x"),
        ("view", "z", "x", "f"), ("refresh", "z"), ("create", "x", "B"),
        ("view", "y", "x", "m"), ("view", "x", "z", "f"), ("append", "y"),
        ("create", "z", "A"), ("refresh", "y")]
EDGE = [("create", "x", "A"), ("append", "x"), ("stray", "y", "file"),
        ("stray", "x", "empty"), ("stray", "y", "half"), ("view", "y", "x", "f"),
        ("invalid", "y"), ("other", "y", "B"), ("direct", "z", "A"),
        ("move", "x", "z"), ("drop", "y"), ("delete", "x")]


def _task(item):
  style, seqs = item
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  for seq in seqs:
    s = Session(style, out)
    v = []
    for a in seq:
      v = s.act(a)
      if v:
        break
    out["violations"] += v
    s.done()
    if len(out["violations"]) > 3:
      break
  out["traces"] = out["transitions"]
  return out


def sequences(report, tier):
  n = 4 if tier == "quick" else 5
  jobs = []
  for alphabet, style in ((CORE, ""), (EDGE, "/")):
    seqs = []
    for s in itertools.product(alphabet, repeat=n):
      # Something must exist before it is changed; equal neighbours of the
      # same creation are covered once.
      if s[0][0] not in ("create", "other", "direct", "stray", "invalid"):
        continue
      seqs.append(s)
    if tier == "quick":
      seqs = [s for s in seqs if s[0][0] in ("create", "stray")
              and s[0][1] == "x"]
    report.bump("sequences", len(seqs))
    jobs += [(style, seqs[i:i + 24]) for i in range(0, len(seqs), 24)]
  for r in harness.pmap(_task, jobs):
    report.merge(r)
  report.sample({"sequence": [list(a) for a in jobs[0][1][-1]]})
  report.bounds.append(
      f"sequences of {n} of {len(CORE)} and of {len(EDGE)} actions over three "
      "names: creations (also over existing ones, by other catalog objects or "
      "directly), views, views of views, appends, refreshes, strays, invalid "
      "definitions, moves and removals; everything is listed, opened and read "
      "after each")


ODD_NAMES = ["x y", "ä", "日本", ".hidden", "a.b", "-r", "data", "metadata",
             "%2Fx", "x\ty", "entrypoint.txtpb", "~", "#1", "a'b\"c", "*",
             "[x]", "x" * 200, "{y}", "$HOME", "a:b", "a\\b", "NUL", "?",
             "X", "x ", " x", "x.", "x\n", "a\u0308", "x_y", "x-y", "001",
             "x\u200b", "\uff58", "x~", "x.bak", "_x", "x%20y"]


def _name_task(pair):
  out = {"violations": [], "counts": {}, "transitions": 0, "states": 0}
  a, b = pair
  s = Session("", out)
  v = []
  for act in (("create", a, "A"), ("append", a), ("create", b, "B"),
              ("view", "z", a, "f"), ("append", b), ("create", a, "B"),
              ("refresh", "z"), ("view", a + "2", b, "m"),
              ("refresh", a + "2"), ("append", a)):
    v = s.act(act)
    if v:
      break
  out["violations"] += v
  s.done()
  out["traces"] = out["transitions"]
  return out


def names(report, tier):
  pairs = [(n, "x") for n in ODD_NAMES] + [("x", n) for n in ODD_NAMES]
  pairs += [("\u00e4", "a\u0308"), ("x y", "x%20y"), ("x_y", "x-y"),
            ("x ", "x_y"), ("001", "1"), ("x~", "x."), ("X", "\uff58")]
  if tier != "quick":
    pairs = list(itertools.permutations(ODD_NAMES, 2))
  for r in harness.pmap(_name_task, pairs):
    report.merge(r)
  report.bounds.append(f"a fixed sequence over pairs of {len(ODD_NAMES)} "
                       "unusual names")


def _many_task(item):
  """A catalog that grows; every dataset is found under its own name."""
  style, name, n = item
  s = Session("", {"transitions": 0, "states": 0, "violations": []})
  out = s.out
  cat, made = s.cat, {}
  for i in range(n):
    x = name % i
    world = WORLDS["AB"[i % 2]]
    try:
      if i % 5 == 4 and style == "views":
        src = name % (i - 2)
        cat.materialize(x, cat.dataset(src).filter(_odd))
        made[x] = (made[src][0], 0, True)
      else:
        ds = cat.create_dataset(x, world.schema, world.pk, world.rec)
        for k in range(i % 3):
          ds.local().append(world.table([make_row(world, 10 * i + k)]))
        made[x] = (world, i % 3, False)
      out["transitions"] += 1
      listed = sorted(d.name for d in DirCatalog(s.loc).datasets())
      if listed != sorted(made):
        out["violations"] = s.bad("many-listed", f"{listed}, not {sorted(made)}")
        break
    except Exception as e:  # pylint: disable=broad-except
      out["violations"] = [violation(f"many-raised:{type(e).__name__}",
                                     exc_str(e), [style, name, i])]
      break
  for x, (world, version, view) in made.items():
    if out["violations"]:
      break
    ds = DirCatalog(s.loc).dataset(x)
    got = ds.storage
    if (isinstance(ds, MaterializedView) != view
        or got.logical_schema.names != world.fields
        or got.metadata.current_snapshot_id != version
        or os.path.realpath(got.location) != os.path.realpath(s.path(x))):
      out["violations"] = [violation(
          "many-opened", f"{x}: {type(ds)} at {got.location}, version "
          f"{got.metadata.current_snapshot_id}, {got.logical_schema.names}, "
          f"expected {version}, {world.fields}", [style, name, len(made)])]
    out["states"] += 1
  s.done()
  out["traces"] = out["transitions"]
  return out


def many(report, tier):
  n = 24 if tier == "quick" else 120
  items = [(style, name, n) for style in ("", "views") for name in (
      "d%d", "%03d", "%d", "part-%d", "x%dy")]
  for r in harness.pmap(_many_task, items):
    report.merge(r)
  report.bounds.append(f"catalogs growing to {n} datasets and views")


def run(report, tier):
  sequences(report, tier)
  names(report, tier)
  many(report, tier)
  report.assumptions += [
      "names are single path components",
      "Ray itself is not installed: /verif/raystub executes the remote calls"]
