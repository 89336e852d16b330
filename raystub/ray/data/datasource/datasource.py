from typing import Any

WriteResult = Any


class Datasource:

  def create_reader(self, **read_args):
    raise NotImplementedError


class Reader:

  def estimate_inmemory_data_size(self):
    raise NotImplementedError

  def get_read_tasks(self, parallelism):
    raise NotImplementedError


class ReadTask:

  def __init__(self, read_fn, metadata):
    self._read_fn, self._metadata = read_fn, metadata

  def get_metadata(self):
    return self._metadata

  def __call__(self):
    result = self._read_fn()
    if not hasattr(result, "__iter__"):
      raise TypeError("Read function must return an iterable of blocks")
    yield from result
