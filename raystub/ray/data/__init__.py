"""A sequential stand-in for the part of Ray Data 2.9 that Space uses.

Blocks are Arrow tables. A dataset is lazy. The order in which the blocks of
its read tasks come out is a choice of the oracle: the streaming executor of
Ray does not preserve order by default.
"""
import itertools
import math

import cloudpickle
import numpy as np
import pyarrow as pa

from ray import _runtime
from ray.data.block import Block, BlockMetadata
from ray.data import block, datasource

MAX_PERMUTED = 3


def permute(items, what):
  """Put the items in an order chosen by the oracle: every order when there are
  up to MAX_PERMUTED items, else as they are or reversed."""
  n = len(items)
  if n <= 1:
    return list(items)
  if n <= MAX_PERMUTED:
    left, out = list(items), []
    while len(left) > 1:
      out.append(left.pop(_runtime.RT.oracle.choose(len(left), what)))
    return out + left
  return (list(items) if _runtime.RT.oracle.choose(2, what) == 0 else
          list(reversed(items)))


def _numpy_batch(table):
  out = {}
  for name in table.column_names:
    col = table.column(name)
    out[name] = col.to_numpy()
    if out[name].flags.writeable is False:
      out[name] = out[name].copy()
  return out


def _from_numpy(batch):
  if isinstance(batch, pa.Table):
    return batch
  if not isinstance(batch, dict):
    raise ValueError(f"a batch has type {type(batch)}")
  return pa.table({k: pa.array(list(v)) if getattr(v, "dtype", None) == object
                   else pa.array(v) for k, v in batch.items()})


class Dataset:

  def __init__(self, blocks_fn, counts=None):
    self._blocks_fn = blocks_fn  # () -> list of tables, run by the consumer
    self._counts = counts

  # -- consumption
  def _blocks(self):
    return self._blocks_fn()

  def iter_batches(self, *, prefetch_batches=1, batch_size=256,
                   batch_format="default", drop_last=False):
    for t in self._blocks():
      if batch_size is None:
        pieces = [t]
      else:
        pieces = [t.slice(i, batch_size)
                  for i in range(0, t.num_rows, batch_size)]
      for p in pieces:
        if batch_format == "pyarrow":
          yield p
        else:
          yield _numpy_batch(p)

  def count(self):
    if self._counts is not None and all(c is not None for c in self._counts):
      return sum(self._counts)
    return sum(t.num_rows for t in self._blocks())

  def take_all(self):
    return [r for t in self._blocks() for r in t.to_pylist()]

  def materialize(self):
    blocks = self._blocks()
    return Dataset(lambda: blocks)

  # -- transforms
  def map_batches(self, fn, *, batch_size="default", batch_format="default",
                  **kwargs):
    def run():
      tables = [t for t in self._blocks() if t.num_rows > 0]
      if batch_size not in ("default", None):
        tables = _rebatch(tables, batch_size)
      out = []
      for t in tables:
        res = fn(t if batch_format == "pyarrow" else _numpy_batch(t))
        res = res if hasattr(res, "__next__") else [res]
        out += [_from_numpy(r) for r in res]
      return out

    return Dataset(run)

  def filter(self, fn, **kwargs):
    def run():
      out = []
      for t in self._blocks():
        rows = [r for r in t.to_pylist() if fn(dict(r))]
        out.append(pa.table({n: [r[n] for r in rows] for n in t.column_names})
                   if rows else pa.table({}))
      return out

    return Dataset(run)

  def select_columns(self, cols, **kwargs):
    return Dataset(lambda: [t.select(cols) for t in self._blocks()
                            if t.num_rows > 0])

  def repartition(self, num_blocks, *, shuffle=False):
    def run():
      tables = [t for t in self._blocks() if t.num_rows > 0]
      if not tables or num_blocks <= 0:
        return []
      data = pa.concat_tables(tables)
      size, extra = divmod(data.num_rows, num_blocks)
      out, pos = [], 0
      for i in range(num_blocks):
        n = size + (1 if i < extra else 0)
        out.append(data.slice(pos, n))
        pos += n
      return out

    return Dataset(run)


MaterializedDataset = Dataset


def _rebatch(tables, size):
  if not tables:
    return []
  data = pa.concat_tables(tables)
  return [data.slice(i, size) for i in range(0, data.num_rows, size)]


def read_datasource(datasource, *, parallelism=-1, ray_remote_args=None,
                    **read_args):
  reader = datasource.create_reader(**read_args)
  tasks = reader.get_read_tasks(parallelism)
  counts = [t.get_metadata().num_rows for t in tasks]
  blobs = [cloudpickle.dumps(t) for t in tasks]

  def run():
    out = []
    for blob in permute(blobs, "read"):
      _runtime.RT.calls += 1
      f = _runtime.RT.oracle.fault("read task")
      if f in ("crash", "crash-after"):
        raise _runtime.WorkerCrash("worker died in a read task")
      task = cloudpickle.loads(blob)
      out += list(task())
      if f == "retry":
        list(task())
    return out

  return Dataset(run, counts)


def from_arrow_refs(refs):
  if isinstance(refs, _runtime.ObjectRef):
    refs = [refs]
  refs = list(refs)

  def table(ref):
    t = _runtime.get(ref)
    if not isinstance(t, pa.Table):
      raise TypeError(f"Not a block type: {type(t)}")
    return t

  blocks = [table(r) for r in refs]  # Ray fetches the metadata of the blocks
  return Dataset(lambda: permute(blocks, "refs"))


def from_arrow(tables):
  tables = [tables] if isinstance(tables, pa.Table) else list(tables)
  return Dataset(lambda: permute(tables, "refs"))
