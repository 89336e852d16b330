"""Controlled execution of the stub Ray: schedules and faults."""

from ray import _runtime


class Schedule(_runtime.Oracle):
  """Follows a prefix of choices, then always the first (or last) one.

  fault: (index of a remote call, kind) or None.
  """

  def __init__(self, prefix=(), fault=None, last=False):
    self.prefix, self.fault_at, self.last = list(prefix), fault, last
    self.log = []
    self.calls = []

  def choose(self, n, what):
    i = len(self.log)
    c = self.prefix[i] if i < len(self.prefix) else (n - 1 if self.last else 0)
    c = min(c, n - 1)
    self.log.append((c, n))
    return c

  def fault(self, what):
    i = len(self.calls)
    self.calls.append(what)
    if self.fault_at is not None and self.fault_at[0] == i:
      return self.fault_at[1]
    return None

  def choices(self):
    return [c for c, _ in self.log]


def use(oracle):
  _runtime.RT.reset()
  _runtime.RT.oracle = oracle
  return oracle


def drain():
  """Tasks nobody waits for still run to their end."""
  _runtime.RT.drain()


def following(log):
  """The choices of the next schedule in depth-first order, or None."""
  log = list(log)
  while log and log[-1][0] + 1 >= log[-1][1]:
    log.pop()
  if not log:
    return None
  return [c for c, _ in log[:-1]] + [log[-1][0] + 1]


def schedules(limit=None):
  """Every schedule of a program that is run once per yielded oracle."""
  prefix, n = [], 0
  while prefix is not None and (limit is None or n < limit):
    o = use(Schedule(prefix))
    yield o
    n += 1
    prefix = following(o.log)
