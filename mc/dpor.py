"""Stateless model checking of real processes (dynamic partial order reduction).

Every process stops before each file system operation below the root (see
shim/fsshim.c) and tells the controller what it is about to do. The controller
explores all schedules up to equivalence: backtracking points are added where
two dependent operations (same path, at least one changing it) of different
processes are not ordered by happens-before (Flanagan and Godefroid, 2005),
with sleep sets.
"""

import os
import pickle
import select
import signal

from mc import shim

READS = ("read", "stat")


class Diverged(Exception):
  pass


class Op:
  __slots__ = ("kind", "paths")

  def __init__(self, line):
    kind, p1, p2 = line.split("\t")
    self.kind = kind
    self.paths = tuple(p for p in (p1, p2) if p)

  def reads_only(self):
    return self.kind in READS

  def dependent(self, other):
    if self.reads_only() and other.reads_only():
      return False
    return any(p in other.paths for p in self.paths)

  def __repr__(self):
    return f"{self.kind} {' <- '.join(self.paths)}"


class Proc:
  """A forked process under the controller."""

  def __init__(self, fn, root):
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    self.pid = os.fork()
    if self.pid == 0:
      code = 1
      try:
        os.close(r1)
        os.close(w2)
        shim.root(root)
        shim.sched(w1, r2)
        try:
          result = fn()
        finally:
          shim.sched_stop()
        os.write(w1, b"=" + pickle.dumps(result).hex().encode() + b"\n")
        code = 0
      except BaseException as e:  # pylint: disable=broad-except
        shim.sched_stop()
        os.write(w1, b"!" + repr(e).replace("\n", " ")[:500].encode() + b"\n")
      finally:
        os._exit(code)
    os.close(w1)
    os.close(r2)
    self.rfd, self.wfd = r1, w2
    self.buf = b""
    self.pending = None
    self.result = None
    self.error = None
    self.done = False
    self._next()

  def _line(self):
    while b"\n" not in self.buf:
      ok, _, _ = select.select([self.rfd], [], [], 60)
      if not ok:
        return b"!hang"
      data = os.read(self.rfd, 1 << 16)
      if not data:
        return b"!died"
      self.buf += data
    line, self.buf = self.buf.split(b"\n", 1)
    return line

  def _next(self):
    line = self._line()
    c, rest = line[:1], line[1:]
    if c == b"@":
      self.pending = Op(rest.decode(errors="replace"))
      return
    self.pending, self.done = None, True
    if c == b"=":
      self.result = pickle.loads(bytes.fromhex(rest.decode()))
    else:
      self.error = rest.decode(errors="replace")

  def step(self):
    os.write(self.wfd, b"g")
    self._next()

  def close(self):
    os.close(self.rfd)
    os.close(self.wfd)
    if not self.done or self.error:
      try:
        os.kill(self.pid, signal.SIGKILL)
      except ProcessLookupError:
        pass
    os.waitpid(self.pid, 0)


class Node:
  __slots__ = ("chosen", "sig", "done", "backtrack", "sleep")

  def __init__(self, chosen, sleep):
    self.chosen, self.sig = chosen, None
    self.done, self.backtrack, self.sleep = set(), {chosen}, sleep


class Execution:
  """What happened: events [(process, Op)], start/end positions, results."""

  def __init__(self, n):
    self.events = []
    self.start = [None] * n
    self.end = [None] * n
    self.results = [None] * n
    self.errors = [None] * n
    self.pruned = False


def run_one(fns, root, stack, skip):
  """Replays the choices on the stack, then extends to a full execution.

  skip(op) -> True for operations that never conflict (not scheduled).
  """
  ex = Execution(len(fns))
  procs = []
  try:
    for fn in fns:
      procs.append(Proc(fn, root))
    n = len(procs)
    clocks = [[-1] * n for _ in range(n)]
    ev_clock, by_path = [], {}
    depth, last = 0, None
    sleep = frozenset()

    def settle(i):
      """Run operations that are not scheduled."""
      while not procs[i].done and skip(procs[i].pending):
        procs[i].step()

    for i in range(n):
      settle(i)
    while True:
      alive = [i for i in range(n) if not procs[i].done]
      if not alive:
        break
      # Races of the pending operations with what has been executed.
      for i in alive:
        op, best = procs[i].pending, -1
        for path in op.paths:
          for j in reversed(by_path.get(path, ())):
            if j <= best:
              break
            pj, oj = ex.events[j]
            if pj != i and oj.dependent(op) and j > clocks[i][pj]:
              best = j
              break
        if best >= 0:
          stack[best].backtrack.add(i)
      if depth < len(stack):
        node = stack[depth]
        c = node.chosen
        if c not in alive:
          raise Diverged(f"process {c} is not alive at {depth}")
      else:
        awake = [i for i in alive if i not in sleep]
        if not awake:
          ex.pruned = True
          return ex
        c = last if last in awake else awake[0]
        node = Node(c, sleep)
        stack.append(node)
      op = procs[c].pending
      sig = op.kind + str(len(op.paths))
      if node.sig is None:
        node.sig = sig
      elif node.sig != sig:
        raise Diverged(f"{node.sig} became {sig} at {depth}")
      sleep = frozenset(
          i for i in (set(node.sleep) | (node.done - {c}))
          if i in alive and i != c and not procs[i].pending.dependent(op))
      # Happens-before.
      idx = len(ex.events)
      ck = list(clocks[c])
      for path in op.paths:
        for j in by_path.get(path, ()):
          if ex.events[j][1].dependent(op):
            ck = [max(a, b) for a, b in zip(ck, ev_clock[j])]
      ck[c] = idx
      clocks[c] = ck
      ev_clock.append(ck)
      ex.events.append((c, op))
      for path in op.paths:
        by_path.setdefault(path, []).append(idx)
      if ex.start[c] is None:
        ex.start[c] = idx
      procs[c].step()
      settle(c)
      if procs[c].done:
        ex.end[c] = idx
      last = c
      depth += 1
    for i, p in enumerate(procs):
      ex.results[i], ex.errors[i] = p.result, p.error
    return ex
  finally:
    for p in procs:
      p.close()


def explore(make, judge, limit=100000):
  """make() -> (fns, root, skip, cleanup); judge(ex, root) -> violations.

  Returns (executions, pruned, events, violations, exhausted).
  """
  stack, first = [], True
  executions = pruned = events = 0
  violations = []
  while first or stack:
    first = False
    fns, root, skip, cleanup = make()
    try:
      for attempt in range(3):
        try:
          ex = run_one(fns, root, stack, skip)
          break
        except Diverged:
          if attempt == 2:
            raise
          cleanup()
          fns, root, skip, cleanup = make()
      events += len(ex.events)
      if ex.pruned:
        pruned += 1
      else:
        executions += 1
        violations += judge(ex, root)
    finally:
      cleanup()
    # The deepest alternative not tried yet.
    while stack:
      node = stack[-1]
      node.done.add(node.chosen)
      todo = [p for p in sorted(node.backtrack - node.done)
              if p not in node.sleep]
      if todo:
        node.chosen, node.sig = todo[0], None
        break
      stack.pop()
    if executions + pruned >= limit or len(violations) > 20000:
      return executions, pruned, events, violations, not stack
  return executions, pruned, events, violations, True
