"""A sequential, choice-driven stand-in for the Ray 2.9 core API.

Every `.remote` call only queues work. `get` runs queued work until the asked
results exist, and asks the oracle which queue makes the next step: one queue
per actor (Ray runs the calls of an actor in submission order), and one queue
per task (Ray orders tasks by nothing). Arguments and results are serialized,
as they are when they cross a process boundary.
"""
import collections
import itertools

import cloudpickle


class RayError(Exception):
  pass


class RayTaskError(RayError):
  """What `get` raises for a failed task; also an instance of its cause."""


class WorkerCrash(RayError):
  """The process of a task or an actor died (injected by the oracle)."""


def as_instanceof_cause(exc):
  cls = type(exc)
  if issubclass(cls, RayError):
    return exc
  try:
    new = type(f"RayTaskError({cls.__name__})", (RayTaskError, cls), {
        "__init__": lambda self, msg: Exception.__init__(self, msg),
        "__str__": lambda self: str(self.args[0]) if self.args else ""
    })
    err = new(f"{cls.__name__}: {exc}")
  except TypeError:
    err = RayTaskError(f"{cls.__name__}: {exc}")
  err.__cause__ = exc
  return err


class Oracle:
  """The default oracle: first in, first out; no faults."""

  def choose(self, n, what):
    return 0

  def fault(self, what):
    """Return None, "crash" (the worker dies before the call), "crash-after"
    (it dies after the call, the result is lost) or "retry" (the worker dies
    after the call, and Ray runs a task again)."""
    return None


class Runtime:

  def __init__(self):
    self.oracle = Oracle()
    self.reset()

  def reset(self):
    self.queues = collections.OrderedDict()  # queue id -> deque of calls
    self.ids = itertools.count(1)
    self.calls = 0

  def submit(self, queue, ref, fn):
    self.queues.setdefault(queue, collections.deque()).append((ref, fn))

  def step(self):
    keys = [k for k, q in self.queues.items() if q]
    key = keys[self.oracle.choose(len(keys), "sched") if len(keys) > 1 else 0]
    ref, fn = self.queues[key].popleft()
    if not self.queues[key]:
      del self.queues[key]
    self.calls += 1
    fn(ref)

  def get(self, ref):
    while not ref.done:
      if not self.queues:
        raise RayError("get of an object which nothing produces")
      self.step()
    if ref.error is not None:
      raise as_instanceof_cause(ref.error)
    return cloudpickle.loads(ref.value)

  def drain(self):
    while self.queues:
      self.step()


RT = Runtime()


class ObjectRef:

  def __class_getitem__(cls, item):
    return cls

  def __init__(self):
    self.done, self.value, self.error = False, None, None

  def set(self, value):
    self.done, self.value = True, cloudpickle.dumps(value)

  def fail(self, error):
    self.done, self.error = True, error


def _run(ref, body, what, retriable):
  f = RT.oracle.fault(what)
  if f == "crash":
    ref.fail(WorkerCrash(f"worker died before {what}"))
    return False
  try:
    value = body()
    if f == "retry" and retriable:
      value = body()
  except Exception as e:  # pylint: disable=broad-except
    ref.fail(e)
    return True
  if f == "crash-after":
    ref.fail(WorkerCrash(f"worker died after {what}"))
    return False
  ref.set(value)
  return True


def _dump(args, kwargs):
  # Top-level object references are resolved by the worker.
  return cloudpickle.dumps((args, kwargs))


class RemoteFunction:

  def __init__(self, fn):
    self._fn = fn

  def __call__(self, *a, **k):
    raise TypeError("Remote functions cannot be called directly")

  def options(self, **kwargs):
    return self

  def remote(self, *args, **kwargs):
    ref = ObjectRef()
    blob = _dump(args, kwargs)
    name = getattr(self._fn, "__name__", "task")

    def body():
      a, k = cloudpickle.loads(blob)
      return self._fn(*a, **k)

    RT.submit(("task", next(RT.ids)), ref,
              lambda ref: _run(ref, body, f"task {name}", True))
    return ref


class _ActorMethod:

  def __init__(self, handle, name):
    self._handle, self._name = handle, name

  def options(self, **kwargs):
    return self

  def remote(self, *args, **kwargs):
    return self._handle._call(self._name, args, kwargs)  # pylint: disable=protected-access


class ActorHandle:

  def __init__(self, cls, args, kwargs):
    self._id = next(RT.ids)
    self._obj, self._dead, self._cls = None, None, cls
    blob = _dump(args, kwargs)

    def create(ref):

      def body():
        a, k = cloudpickle.loads(blob)
        self._obj = cls(*a, **k)

      _run(ref, body, f"actor {cls.__name__}()", False)
      self._dead = ref.error

    RT.submit(("actor", self._id), ObjectRef(), create)

  def __getattr__(self, name):
    if name.startswith("_"):
      raise AttributeError(name)
    return _ActorMethod(self, name)

  def _call(self, name, args, kwargs):
    ref = ObjectRef()
    blob = _dump(args, kwargs)

    def run(ref):
      if self._dead is not None:
        ref.fail(WorkerCrash(f"the actor died: {self._dead!r}"))
        return

      def body():
        a, k = cloudpickle.loads(blob)
        return getattr(self._obj, name)(*a, **k)

      if not _run(ref, body, f"actor {self._cls.__name__}.{name}", False):
        self._dead = ref.error

    RT.submit(("actor", self._id), ref, run)
    return ref


class ActorClass:

  def __init__(self, cls):
    self._cls = cls

  def options(self, **kwargs):
    return self

  def remote(self, *args, **kwargs):
    return ActorHandle(self._cls, args, kwargs)


def remote(*args, **options):
  if args and not options:
    return ActorClass(args[0]) if isinstance(args[0], type) else \
        RemoteFunction(args[0])
  return remote


def get(refs, timeout=None):
  if isinstance(refs, ObjectRef):
    return RT.get(refs)
  return [RT.get(r) for r in refs]


def wait(refs, num_returns=1, timeout=None):
  refs = list(refs)
  while sum(r.done for r in refs) < min(num_returns, len(refs)):
    RT.step()
  done = [r for r in refs if r.done][:num_returns]
  return done, [r for r in refs if r not in done]


class _Put:
  pass


def put(value):
  ref = ObjectRef()
  ref.set(value)
  return ref


def kill(actor, **kwargs):
  actor._dead = RayError("killed")  # pylint: disable=protected-access


def init(*args, **kwargs):
  return None


def is_initialized():
  return True


def shutdown():
  RT.reset()
