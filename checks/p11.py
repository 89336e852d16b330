"""P11: schemas, field IDs and values of every supported type round-trip."""

import itertools
import math
import os

import pyarrow as pa
import pyarrow.parquet as pq

from mc import driver, expr, harness
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED, freeze

from space import Dataset, File, TfFeatures

INF, NAN = math.inf, math.nan


def tff(name):
  from tensorflow_datasets import features as f  # pylint: disable=g-import-not-at-top
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  if name == "a":
    return TfFeatures(f.FeaturesDict({"x": f.Scalar(tf.int64)}))
  return TfFeatures(f.FeaturesDict({"y": f.Tensor(shape=(2,),
                                                  dtype=tf.float32)}))


BASE = ["bool", "int32", "int64", "float32", "float64", "string", "binary",
        "file", "filed"]
_TYPES = {"bool": pa.bool_(), "int32": pa.int32(), "int64": pa.int64(),
          "float32": pa.float32(), "float64": pa.float64(),
          "string": pa.string(), "binary": pa.binary()}
_VALUES = {
    "bool": [True, False], "int32": [-2 ** 31, 0, 2 ** 31 - 1],
    "int64": [2 ** 63 - 1, -2 ** 63, 0], "float32": [1.5, -INF, NAN, 0.0],
    "float64": [0.1, INF, NAN, 5e-324], "string": ["", "a\u00e9\n", "\U0001f600"],
    "binary": [b"", b"\x00\xff", b"abc"], "file": ["p/q.txt", ""],
    "filed": ["x", ""],
}


# A type is a base name, ("list", T), or ("struct", ((name, T), ...)); the
# record types are "rec" (bytes) and "tfa", "tfb" (TfFeatures).


def arrow(t, storage=False):
  """Logical type, or the type of the data written."""
  if isinstance(t, str):
    if t in ("file", "filed"):
      return pa.string() if storage else File("dir/x" if t == "filed" else "")
    if t == "rec":
      return pa.binary()
    if t in ("tfa", "tfb"):
      return pa.binary() if storage else tff(t[2])
    return _TYPES[t]
  if t[0] == "list":
    return pa.list_(arrow(t[1], storage))
  return pa.struct([(n, arrow(x, storage)) for n, x in t[1]])


def values(t, n=3):
  """Some values of a type, with nulls at every level."""
  if isinstance(t, str):
    if t in ("rec", "tfa", "tfb"):
      return [b"", b"r1", b"record"]
    return _VALUES[t][:n] + [None] + _VALUES[t][n:]
  if t[0] == "list":
    inner = values(t[1], 2)
    return [inner[:1], [], None, inner, [None, inner[0]]]
  subs = [(name, values(x, 2)) for name, x in t[1]]
  out = [{name: v[i % len(v)] for name, v in subs} for i in range(3)]
  return out + [None, {name: None for name, _ in subs}]


def show(t):
  if isinstance(t, str):
    return t
  if t[0] == "list":
    return f"[{show(t[1])}]"
  return "{" + ",".join(f"{n}:{show(x)}" for n, x in t[1]) + "}"


def canon(t):
  """Structural form of an Arrow type, without field metadata."""
  if isinstance(t, pa.ExtensionType):
    return (type(t).__name__, bytes(t.__arrow_ext_serialize__()))
  if pa.types.is_list(t):
    return ("list", canon(t.value_type))
  if pa.types.is_struct(t):
    return ("struct", tuple((t.field(i).name, canon(t.field(i).type))
                            for i in range(t.num_fields)))
  return str(t)


def canon_schema(s):
  return [(f.name, canon(f.type)) for f in s]


def stored_ids(ds):
  """[(depth-first names and IDs)] of the persisted schema."""
  named = ds.storage.metadata.schema.fields
  names = list(named.names)
  out = []

  def visit(t, name):
    kind = t.WhichOneof("kind")
    out.append((name, kind, getattr(t, kind).type_variation_reference))
    if kind == "list":
      walk(t.list.type, name + "[]")
    elif kind == "struct":
      for x in t.struct.types:
        visit(x, name + "." + names.pop(0))

  def walk(t, name):
    visit(t, name)

  top = []
  for t in named.struct.types:
    name = names.pop(0)
    top.append((name, getattr(t, t.WhichOneof("kind")).type_variation_reference))
    visit(t, name)
  return out, top, names


def expected_nodes(fields):
  out = []

  def visit(name, t):
    if isinstance(t, str):
      out.append(name)
    elif t[0] == "list":
      out.append(name)
      visit(name + "[]", t[1])
    else:
      out.append(name)
      for n, x in t[1]:
        visit(name + "." + n, x)

  for n, t in fields:
    visit(n, t)
  return out


class W(World):
  """A world whose tables have the storage form of the types."""

  def __init__(self, fields, pk, rec):
    super().__init__("s", [(n, arrow(t)) for n, t in fields], pk, rec)
    self.types_ = fields
    self.plain = pa.schema([(n, arrow(t, True)) for n, t in fields])

  def table(self, rows):
    return pa.Table.from_pylist([dict(r) for r in rows], schema=self.plain)


def check_schema(ds, w, ids, what, trace):
  bad = lambda sig, m: [violation(sig, f"{what}: {m}", trace)]
  if canon_schema(ds.schema) != canon_schema(w.schema):
    return bad("schema", f"{ds.schema} instead of {w.schema}")
  if list(ds.primary_keys) != w.pk or list(ds.record_fields) != w.rec:
    return bad("keys", f"keys {ds.primary_keys}, records {ds.record_fields}")
  nodes, top, rest = stored_ids(ds)
  got = [n for n, _, _ in nodes]
  if got != expected_nodes(w.types_) or rest:
    return bad("nested-names", f"{got} and {rest}, expected "
               f"{expected_nodes(w.types_)}")
  values_ = [i for _, _, i in nodes]
  if len(set(values_)) != len(values_) or min(values_) < 0:
    return bad("field-ids", f"not unique: {nodes}")
  for schema, kind in ((ds.schema, "logical"),
                       (ds.storage.physical_schema, "physical")):
    mine = [(f.name, int((f.metadata or {}).get(b"PARQUET:field_id", -1)))
            for f in schema]
    if mine != top:
      return bad("field-ids", f"{kind} schema has {mine}, stored are {top}")
  if ids and ids[0] != nodes:
    return bad("field-ids-changed", f"{ids[0]} became {nodes}")
  if not ids:
    ids.append(nodes)
  return []


def check_files(ds, w, trace):
  """Data files carry the IDs of the top level fields."""
  ids = {f.name: int(f.metadata[b"PARQUET:field_id"])
         for f in ds.storage.physical_schema}
  for p in ds.index_files():
    got = {f.name: int((f.metadata or {}).get(b"PARQUET:field_id", -1))
           for f in pq.ParquetFile(p).schema_arrow}
    if got != ids:
      return [violation("file-field-ids", f"{got} in a data file, expected "
                        f"{ids}", trace)]
  return []


def _task(item):
  fields, pk, rec = item
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {}}
  trace = [[f"{n}:{show(t)}" for n, t in fields], pk, rec]
  out["samples"] = [trace]
  v = _run_one(fields, pk, rec, trace, out)
  out["violations"] = v
  return out


def _run_one(fields, pk, rec, trace, out):
  w = W(fields, pk, rec)
  d = harness.new_dir("p11")
  ids = []
  try:
    ds = w.create(d)
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"create-raised:{type(e).__name__}", exc_str(e), trace)]
  v = check_schema(ds, w, ids, "created", trace)
  v = v or check_schema(Dataset.load(d), w, ids, "reopened", trace)
  if v:
    return v
  vals = {n: values(t) for n, t in fields}
  keyed = {n: [x for x in vs if x is not None and x == x] if n in pk else vs
           for n, vs in vals.items()}
  size = max(len(x) for x in keyed.values())
  rows = [{n: vs[i % len(vs)] for n, vs in keyed.items()}
          for i in range(size)]
  ops = [("append_from", [rows[:2], rows[2:]], "rg"),
         ("append", rows[1:], "default", "sliced")]
  # Rewrite the rows with the first key.
  k = pk[-1]
  rewrite = ("upsert", [dict(rows[1], **{x: rows[0][x] for x in pk})], "file")
  ops.append(rewrite)
  model = w.model()
  for op in ops:
    out["transitions"] += 1
    t = trace + [op[0]]
    v, _ = driver.step(ds, w, model, op, t)
    fresh = Dataset.load(d)
    for h, what in ((ds, "same handle"), (fresh, "reopened")):
      v = v or check_schema(h, w, ids, f"{what} after {op[0]}", t)
      v = v or driver.expect_bag(
          "values", lambda h=h: driver.read_bag(h, w.fields),
          model.bag(model.rows()), t)
    v = v or check_files(fresh, w, t)
    if v:
      return v
    out["counts"]["rows"] = out["counts"].get("rows", 0) + len(model.rows())
  lit = rows[0][k]
  flt = expr.to_arrow(("cmp", "==", k, lit), {k: arrow(dict(fields)[k], True)})
  v = driver.expect_bag(
      "values with a filter",
      lambda: driver.read_bag(Dataset.load(d), w.fields, filter_=flt),
      model.bag([r for r in model.rows() if r[k] == lit]), trace)
  if not v and rec:
    v = driver.expect_bag(
        "values of selected fields",
        lambda: driver.bag_of_table(
            Dataset.load(d).local().read_all(fields=[rec[0], pk[0]]),
            [rec[0], pk[0]]),
        __import__("collections").Counter(
            tuple(freeze(r[f]) for f in (rec[0], pk[0]))
            for r in model.rows()), trace)
  harness.rm(d)
  return v


def nested(depth, leaves):
  """All types up to a nesting depth over some leaves."""
  level = list(leaves)
  out = []
  for _ in range(depth):
    nxt = [("list", t) for t in level]
    nxt += [("struct", (("r", t),)) for t in level]
    nxt += [("struct", (("k", a), ("x", b)))
            for a, b in itertools.product(level, leaves)]
    nxt += [("struct", (("x", a), ("k", b)))
            for a, b in itertools.product(leaves, level) if b not in leaves]
    out += nxt
    level = nxt
  return out


def schemas(tier):
  quick = tier == "quick"
  key = ("k", "int64")
  out = []
  ts = BASE + nested(1, BASE)
  deep = nested(2 if quick else 3, ["int64", "string"] if quick
                else ["int32"])
  ts += [t for t in deep if t not in ts]
  if not quick:
    ts += [t for t in nested(2, ["int64", "binary"]) if t not in ts]
  for i, t in enumerate(ts):
    out.append(([("f", t), key], ["k"], []))
    if not quick or i % 2:
      out.append(([key, ("r", "rec"), ("f", t)], ["k"], ["r"]))
    else:
      out.append(([("f", t), ("r", "rec"), key, ("s", "rec")], ["k"],
                  ["s", "r"]))
  for t in BASE:
    if t != "filed":
      out.append(([("f", "string"), ("p", t)], ["p"], []))
      for u in BASE:
        out.append(([("p", t), ("f", u), ("r", "rec")], ["p"], ["r"]))
        out.append(([("p", t), ("r", "tfa"), ("q", u)], ["q", "p"], ["r"]))
  out += [([("r", "tfa"), key, ("q", "tfb")], ["k"], ["q", "r"]),
          ([key, ("q", "tfb"), ("r", "rec"), ("f", ("list", "file"))], ["k"],
           ["r", "q"])]
  # Many fields, deep types.
  wide = range(5, 34, 4) if quick else range(5, 140)
  for n in wide:
    fs = [(f"f{i}", ("int64", "string", "float64", ("list", "int64"))[i % 4])
          for i in range(n)]
    out.append((fs + [key], ["k"], []))
    out.append((fs[:n // 2] + [key, ("r", "rec")] + fs[n // 2:],
                ["f0", "k"], ["r"]))
    recs = [(f"r{i}", "rec") for i in range(min(n, 40) // 3)]
    out.append((recs + [key] + fs[:3], ["k"], [x for x, _ in recs]))
  for depth in range(3, 8 if quick else 14):
    t, u = "int64", "string"
    for i in range(depth):
      t, u = ("list", t), ("struct", (("x", u), (f"y{i}", "int64")))
      both = ("list", ("struct", (("a", t), ("b", u))))
    out += [([("f", x), key, ("r", "rec")], ["k"], ["r"])
            for x in (t, u, both)]
  # Names: special characters, prefixes, names used by the implementation.
  names = ["a.b", "", ".x", "[0]", "a b", "\u00e9", "_FILE", "_ROW_ID", "__ROW_ID",
           "__RECORD_KEY", "__FILE", "_STATS", "a/b",
           "../up", "k.x", "0", "_STATS_f0", "a\"b", "%s", "r._FILE",
           "r._ROW_ID", "_min", "_max", "_NUM_ROWS", "_FIELD_ID"]
  for n in names:
    for t in ("int64", "string"):
      out.append(([("a", ("struct", (("b", t), ("k", t)))), (n, "int64"),
                   ("k", "int64"), ("r", "rec")], [n], ["r"]))
      out.append(([("k", "int64"), (n, t), ("r", "rec")], ["k"], ["r"]))
    out.append(([("k", "int64"), (n, "rec"), ("f", "string")], ["k"], [n]))
  return out


# ------------------------------------------------------------------ invalid


def invalid_schemas():
  k = ("k", pa.int64())
  b = ("b", pa.binary())
  bad = [pa.int8(), pa.int16(), pa.uint8(), pa.uint16(), pa.uint32(),
         pa.uint64(), pa.float16(), pa.timestamp("us"), pa.date32(),
         pa.date64(), pa.time32("s"), pa.time64("us"), pa.duration("s"),
         pa.large_string(), pa.large_binary(), pa.large_list(pa.int64()),
         pa.binary(4), pa.list_(pa.int64(), 3), pa.map_(pa.string(), pa.int64()),
         pa.dictionary(pa.int32(), pa.string()), pa.decimal128(5, 2), pa.null()]
  for t in bad:
    for u in (t, pa.list_(t), pa.struct([("x", pa.int64()), ("y", t)]),
              pa.list_(pa.struct([("y", t)]))):
      yield f"field of {u}", [k, ("x", u)], ["k"], []
      yield f"field of {u}", [("x", u), k, b], ["k"], ["b"]
    yield f"key of {t}", [("k", t)], ["k"], []
    yield f"record of {t}", [k, ("x", t)], ["k"], ["x"]
  for t in (pa.list_(pa.int64()), pa.struct([("k", pa.int64())]), tff("a")):
    yield f"key of {t}", [("p", t), k], ["p"], []
    yield f"key of {t}", [k, ("p", t)], ["k", "p"], []
  for t in (pa.bool_(), pa.int64(), pa.float32(), pa.string(),
            pa.list_(pa.binary()), pa.struct([("r", pa.binary())]), File()):
    yield f"record of {t}", [k, ("x", t)], ["k"], ["x"]
    yield f"record of {t}", [k, b, ("x", t)], ["k"], ["b", "x"]
  yield "no key", [k, b], [], []
  yield "no key", [k, b], [], ["b"]
  yield "unknown key", [k, b], ["x"], []
  yield "unknown key", [k, b], ["k", "x"], ["b"]
  yield "nested key", [k, ("s", pa.struct([("y", pa.int64())]))], ["y"], []
  yield "unknown record", [k, b], ["k"], ["x"]
  yield "nested record", [k, ("s", pa.struct([("y", pa.binary())]))], ["k"], [
      "y"]
  yield "record is key", [b], ["b"], ["b"]
  yield "record is key", [k, b], ["k", "b"], ["b"]
  yield "duplicated field", [k, k], ["k"], []
  yield "duplicated field", [k, ("x", pa.int64()), ("x", pa.string())], ["k"], []
  yield "duplicated field", [k, b, b], ["k"], ["b"]
  yield "no field", [], ["k"], []


def invalid(report):
  w = World("ok", [("k", pa.int64()), ("b", pa.binary())], ["k"], ["b"])
  n = 0
  for what, fields, pk, rec in invalid_schemas():
    n += 1
    d = harness.new_dir("inv")
    trace = [what, str(fields), pk, rec]
    try:
      Dataset.create(d, pa.schema(fields), pk, rec)
      report.violate(violation("invalid-accepted", f"{what} was accepted",
                               trace))
      continue
    except Exception:  # pylint: disable=broad-except
      pass
    try:
      Dataset.load(d)
      report.violate(violation("invalid-left-dataset",
                               f"{what} was rejected but left a dataset", trace))
      continue
    except Exception:  # pylint: disable=broad-except
      pass
    # The location can still be used.
    try:
      ds = w.create(d)
      driver.run_op(ds, w, ("append", [w.row(1, b"x")]))
      if driver.read_bag(Dataset.load(d), w.fields) != {(1, b"x"): 1}:
        raise RuntimeError("wrong rows")
    except Exception as e:  # pylint: disable=broad-except
      report.violate(violation("invalid-left-traces", exc_str(e), trace))
    harness.rm(d)
    report.transitions += 2
    report.traces += 1
  report.bump("invalid_schemas", n)


# -------------------------------------------------------------- serializers


def serializers(report):
  """TfFeatures: values written through the serializer are read back."""
  import numpy as np  # pylint: disable=g-import-not-at-top
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  from tensorflow_datasets import features as f  # pylint: disable=g-import-not-at-top
  feats = {
      "int": (f.Scalar(tf.int64), [5, -2 ** 63]),
      "float": (f.Scalar(tf.float32), [1.5, -0.0]),
      "bool": (f.Scalar(tf.bool), [True, False]),
      "text": (f.Text(), ["", "h\u00e9"]),
      "tensor": (f.Tensor(shape=(2, 2), dtype=tf.float32),
                 [np.zeros((2, 2), "float32"),
                  np.arange(4, dtype="float32").reshape(2, 2)]),
      "any": (f.Tensor(shape=(None,), dtype=tf.int64),
              [np.array([], "int64"), np.array([1, 2, 3], "int64")]),
      "seq": (f.Sequence(tf.int64), [[], [1, 2]]),
      "dict": (f.FeaturesDict({"u": f.Scalar(tf.int64), "v": f.Text()}),
               [{"u": 1, "v": "x"}, {"u": 0, "v": ""}]),
      "seqdict": (f.Sequence({"u": f.Scalar(tf.int64)}),
                  [{"u": []}, {"u": [4, 5]}]),
  }

  def norm(x):
    if isinstance(x, dict):
      return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (str, bytes)):
      return x.encode() if isinstance(x, str) else x
    a = np.asarray(x)
    return (a.shape, a.tolist() if a.size else [])

  n = 0
  for a in feats:
    for b in feats:
      if a > b:
        continue
      names = sorted({a, b})
      t = TfFeatures(f.FeaturesDict({x: feats[x][0] for x in names}))
      vals = [{x: feats[x][1][i] for x in names} for i in (0, 1)]
      d = harness.new_dir("ser")
      trace = [names, repr(vals)[:300]]
      try:
        ds = Dataset.create(d, pa.schema([("k", pa.int64()), ("f", t),
                                          ("b", pa.binary())]), ["k"], ["f"])
        data = {"k": [1, 2], "f": vals, "b": [b"x", b"y"]}
        ds.local().append(ds.storage.serializer().serialize(data))
        back = Dataset.load(d)
        got = back.storage.serializer().deserialize(back.local().read_all().to_pydict())
        if got["k"] != [1, 2] or got["b"] != [b"x", b"y"] or (
            norm({"f": got["f"][0], "g": got["f"][1]}) !=
            norm({"f": vals[0], "g": vals[1]})):
          report.violate(violation("serializer", f"{got}, expected {data}",
                                   trace))
      except Exception as e:  # pylint: disable=broad-except
        report.violate(violation("serializer-raised", exc_str(e), trace))
      harness.rm(d)
      n += 1
      report.transitions += 1
      report.traces += 1
  report.bump("serializers", n)


def run(report, tier):
  items = schemas(tier)
  for r in harness.pmap(_task, items, chunksize=4):
    report.merge(r)
  report.bump("schemas", len(items))
  invalid(report)
  serializers(report)
  report.bounds.append(
      f"{len(items)} schemas: 9 field types, all lists and structs of them, "
      f"all nestings of depth {2 if tier == 'quick' else 3} over two leaf "
      "types; keys of 8 types; special names; rejected schemas")
  report.assumptions += [
      "nullability flags of fields are not stored and not covered",
      "TfFeatures is covered as the type of record fields"]
