"""The reference model: what a Space dataset is supposed to be.

A dataset is a tree of immutable snapshots, each a multiset of rows, plus named
references. Rows are tuples of Python values in the order of the world's
fields.
"""

from collections import Counter

from mc import expr

SUCCEEDED, FAILED, SKIPPED = "SUCCEEDED", "FAILED", "SKIPPED"


def freeze(v):
  """Hashable, comparable form of a Python value."""
  if isinstance(v, dict):
    return ("{}",) + tuple((k, freeze(v[k])) for k in sorted(v))
  if isinstance(v, (list, tuple)):
    return ("[]",) + tuple(freeze(x) for x in v)
  if isinstance(v, float) and v != v:
    return "NaN"
  if isinstance(v, bool):
    return ("bool", v)
  return v


def freeze_row(row, fields):
  return tuple(freeze(row[f]) for f in fields)


class Snap:
  """An immutable snapshot."""
  __slots__ = ("rows", "parent", "added", "deleted")

  def __init__(self, rows, parent, added, deleted):
    self.rows = rows          # tuple of row dicts
    self.parent = parent      # snapshot id
    self.added = added        # tuple of row dicts
    self.deleted = deleted    # tuple of row dicts


class Model:
  """Reference state of one dataset."""

  def __init__(self, fields, pk):
    self.fields, self.pk = tuple(fields), tuple(pk)
    self.snaps = {0: Snap((), None, (), ())}
    self.current = 0
    self.refs = {}            # name -> (kind, snapshot id)
    self.max_id = 0

  def copy(self):
    m = Model.__new__(Model)
    m.fields, m.pk = self.fields, self.pk
    m.snaps = dict(self.snaps)
    m.current, m.refs, m.max_id = self.current, dict(self.refs), self.max_id
    return m

  # ---- reading

  def head(self, branch="main"):
    return self.current if branch == "main" else self.refs[branch][1]

  def rows(self, snapshot_id=None, branch="main"):
    return self.snaps[self.head(branch) if snapshot_id is None
                      else snapshot_id].rows

  def bag(self, rows):
    return Counter(freeze_row(r, self.fields) for r in rows)

  def keys(self, rows):
    return Counter(freeze_row(r, self.pk) for r in rows)

  # ---- writing

  def effect(self, op, branch="main"):
    """(state, deleted rows, added rows) of a data operation."""
    kind, rows = op[0], self.rows(branch=branch)
    if kind in ("append", "append_from", "load"):
      new = [r for b in op[1] for r in b] if kind == "append_from" else op[1]
      return (SUCCEEDED, (), tuple(new)) if new else (SKIPPED, (), ())
    if kind in ("insert", "upsert"):
      new = op[1]
      if not new:
        return SKIPPED, (), ()
      new_keys = self.keys(new)
      if max(new_keys.values()) > 1:
        return FAILED, (), ()
      hit = tuple(r for r in rows if freeze_row(r, self.pk) in new_keys)
      if kind == "insert":
        return (FAILED, (), ()) if hit else (SUCCEEDED, (), tuple(new))
      return SUCCEEDED, hit, tuple(new)
    if kind == "delete":
      hit = tuple(r for r in rows if expr.evaluate(op[1], r) is True)
      return (SUCCEEDED, hit, ()) if hit else (SKIPPED, (), ())
    raise ValueError(kind)

  def commit(self, deleted, added, branch="main"):
    parent = self.head(branch)
    rows = list(self.snaps[parent].rows)
    for r in deleted:
      rows.remove(r)
    self.max_id += 1
    self.snaps[self.max_id] = Snap(tuple(rows) + tuple(added), parent,
                                   tuple(added), tuple(deleted))
    if branch == "main":
      self.current = self.max_id
    else:
      self.refs[branch] = ("branch", self.max_id)
    return self.max_id

  def apply(self, op, branch="main"):
    """Apply a data op; returns the expected job state."""
    state, deleted, added = self.effect(op, branch)
    if state == SUCCEEDED:
      self.commit(deleted, added, branch)
    return state

  def ancestors(self, snapshot_id):
    out = []
    s = snapshot_id
    while s is not None:
      out.append(s)
      s = self.snaps[s].parent
    return out
