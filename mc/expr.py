"""Filter expressions: a tiny AST with three-valued reference semantics.

Each AST node is a tuple. `to_arrow` builds the PyArrow expression given to the
code under check; `evaluate` is the reference meaning on one row (True, False
or None for null), following SQL/Arrow Kleene logic.
"""

import datetime
import operator
import struct

import pyarrow as pa
import pyarrow.compute as pc

_OPS = {
    "==": operator.eq, "!=": operator.ne, "<": operator.lt,
    "<=": operator.le, ">": operator.gt, ">=": operator.ge,
}


def _scalar(value, type_=None):
  return pc.scalar(pa.scalar(value, type_) if type_ is not None else value)


def to_arrow(e, types=None):
  """types: field name -> type used to type literals (None: inferred)."""
  kind = e[0]
  types = types or {}
  if kind == "cmp":
    _, op, f, v = e
    return _OPS[op](pc.field(f), _scalar(v, types.get(f)))
  if kind == "rcmp":  # literal on the left
    _, op, v, f = e
    return _OPS[op](_scalar(v, types.get(f)), pc.field(f))
  if kind == "cmpf":
    _, op, f, g = e
    return _OPS[op](pc.field(f), pc.field(g))
  if kind == "and":
    r = to_arrow(e[1], types)
    for x in e[2:]:
      r = r & to_arrow(x, types)
    return r
  if kind == "or":
    r = to_arrow(e[1], types)
    for x in e[2:]:
      r = r | to_arrow(x, types)
    return r
  if kind == "not":
    return ~to_arrow(e[1], types)
  if kind == "isnull":
    return pc.field(e[1]).is_null()
  if kind == "valid":
    return pc.field(e[1]).is_valid()
  if kind == "isin":
    return pc.field(e[1]).isin(pa.array(e[2], types.get(e[1])))
  if kind == "lit":
    return pc.scalar(e[1])
  if kind == "cast":
    _, op, f, v, t = e
    return _OPS[op](pc.field(f).cast(t), pc.scalar(v))
  if kind == "add":
    _, op, f, d, v = e
    return _OPS[op](pc.field(f) + d, pc.scalar(v))
  raise ValueError(kind)


def _f32(v):
  return struct.unpack("f", struct.pack("f", v))[0]


def evaluate(e, row):
  """Three-valued truth of `e` on a row dict."""
  kind = e[0]
  if kind == "cmp":
    a = row[e[2]]
    return None if a is None or e[3] is None else _OPS[e[1]](a, e[3])
  if kind == "rcmp":
    a = row[e[3]]
    return None if a is None or e[2] is None else _OPS[e[1]](e[2], a)
  if kind == "cmpf":
    a, b = row[e[2]], row[e[3]]
    return None if a is None or b is None else _OPS[e[1]](a, b)
  if kind == "and":
    vals = [evaluate(x, row) for x in e[1:]]
    if any(v is False for v in vals):
      return False
    return None if any(v is None for v in vals) else True
  if kind == "or":
    vals = [evaluate(x, row) for x in e[1:]]
    if any(v is True for v in vals):
      return True
    return None if any(v is None for v in vals) else False
  if kind == "not":
    v = evaluate(e[1], row)
    return None if v is None else not v
  if kind == "isnull":
    return row[e[1]] is None
  if kind == "valid":
    return row[e[1]] is not None
  if kind == "isin":
    return row[e[1]] in e[2]
  if kind == "lit":
    return e[1]
  if kind == "cast":
    a = row[e[2]]
    if a is None:
      return None
    conv = {"double": float, "float64": float, "int64": int, "string": str}[
        str(e[4])]
    return _OPS[e[1]](conv(a), e[3])
  if kind == "add":
    a = row[e[2]]
    return None if a is None else _OPS[e[1]](a + e[3], e[4])
  raise ValueError(kind)


def show(e):
  return repr(e)
