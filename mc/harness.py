"""Shared machinery: scratch space, process pool, reports, known findings."""

import ctypes
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
NPROC = int(os.environ.get("MC_PROCS", "8"))

_scratch_root = None


def scratch_root() -> str:
  """A scratch directory of this run, removed when the run ends."""
  global _scratch_root
  if _scratch_root is None:
    base = "/dev/shm"
    try:
      st = os.statvfs(base)
      if st.f_bavail * st.f_frsize < 1 << 30 or not os.access(base, os.W_OK):
        base = None
    except OSError:
      base = None
    _scratch_root = tempfile.mkdtemp(prefix="mcspace_", dir=base)
  return _scratch_root


def remove_scratch() -> None:
  if _scratch_root and os.path.basename(_scratch_root).startswith("mcspace_"):
    shutil.rmtree(_scratch_root, ignore_errors=True)


_counter = 0


def new_dir(tag: str = "d") -> str:
  """A fresh directory path (not created) unique over all processes."""
  global _counter
  _counter += 1
  return os.path.join(scratch_root(), f"{tag}{os.getpid()}_{_counter}")


def rm(path: str) -> None:
  """Remove a directory of the scratch space."""
  assert os.path.abspath(path).startswith(scratch_root() + os.sep), path
  shutil.rmtree(path, ignore_errors=True)


def digest(obj) -> str:
  return hashlib.blake2b(repr(obj).encode(), digest_size=12).hexdigest()


def exc_str(e: BaseException) -> str:
  """Short description of an exception with the innermost frame in space."""
  where = ""
  for f in traceback.extract_tb(e.__traceback__):
    if "/space/" in f.filename:
      where = f" at {f.filename.split('/src/')[-1]}:{f.name}"
  return f"{type(e).__name__}: {str(e)[:300]}{where}"


class Violation(dict):
  """What failed: 'sig' identifies it, 'msg' explains, 'trace' reproduces."""


def violation(sig, msg, trace):
  return Violation(sig=sig, msg=msg, trace=trace)


# ----------------------------------------------------------------- pool


def _call(args):
  fn, item = args
  try:
    return fn(item)
  except Exception as e:  # pylint: disable=broad-except
    # Harness code wraps everything it expects; what arrives here still comes
    # from driving the code under check, and is reported as such.
    return {"violations": [violation(
        "unexpected-exception", f"{exc_str(e)}\n{traceback.format_exc()}",
        repr(item)[:2000])]}


def _worker(conn, fn):
  while True:
    try:
      chunk = conn.recv()
    except EOFError:
      os._exit(0)
    conn.send([_call((fn, i)) for i in chunk])


class _Proc:
  """A forked worker and the chunk it works on."""

  def __init__(self, ctx, fn, others):
    self.conn, child = ctx.Pipe()
    def main():
      self.conn.close()
      for o in others:
        o.conn.close()
      _worker(child, fn)
    self.proc = ctx.Process(target=main, daemon=True)
    self.proc.start()
    child.close()
    self.chunk, self.tries = None, 0

  def give(self, chunk, tries):
    self.chunk, self.tries = chunk, tries
    self.conn.send(chunk)

  def stop(self):
    self.conn.close()
    self.proc.join(2)
    if self.proc.is_alive():
      self.proc.kill()
      self.proc.join()


def pmap(fn, items, chunksize=1):
  """Unordered parallel map over forked workers. Yields dict results.

  Code under check never runs in this process: the libraries it uses start
  threads, which do not survive forks. A worker that dies is replaced and its
  items are tried again, one by one; an item that kills its worker twice is
  reported.
  """
  items = list(items)
  if not items:
    return
  ctx = mp.get_context("fork")
  if os.environ.get("MC_DEBUG"):
    print("threads before fork:", [
        open(f"/proc/self/task/{t}/comm").read().strip()
        for t in os.listdir("/proc/self/task")], fn.__module__, flush=True)
  todo = [(items[i:i + chunksize], 0) for i in range(0, len(items), chunksize)]
  todo.reverse()
  procs = []
  try:
    for _ in range(min(max(NPROC, 1), len(todo))):
      procs.append(_Proc(ctx, fn, procs))
      procs[-1].give(*todo.pop())
    while any(p.chunk is not None for p in procs):
      busy = {p.conn: p for p in procs if p.chunk is not None}
      for conn in multiprocessing.connection.wait(list(busy)):
        p = busy[conn]
        try:
          results = conn.recv()
        except (EOFError, OSError):
          p.proc.join()
          results = []
          if p.tries:
            results.append({"violations": [violation(
                "process-died", f"the process died twice (exit code "
                f"{p.proc.exitcode})", repr(p.chunk[0])[:2000])]})
          else:
            todo += [([i], 1) for i in p.chunk]
            results.append({"counts": {"workers_restarted": 1}})
          p.stop()
          procs.remove(p)
          if todo:
            procs.append(_Proc(ctx, fn, procs))
            procs[-1].give(*todo.pop())
        else:
          p.chunk = None
          if todo:
            p.give(*todo.pop())
        yield from results
  finally:
    for p in procs:
      p.stop()


def in_child(fn, *args):
  """Runs `fn` in a forked process and returns its result."""
  box = list(pmap(_InChild(fn, args), [None]))[-1]
  if "violations" in box:
    raise RuntimeError(box["violations"][0]["msg"])
  return box["result"]


class _InChild:

  def __init__(self, fn, args):
    self.fn, self.args = fn, args

  def __call__(self, _):
    return {"result": self.fn(*self.args)}


def deadline(fn, item, seconds, what):
  """fn(item) in a process of its own; a violation if it takes too long."""
  ctx = mp.get_context("fork")
  here, there = ctx.Pipe()

  def main():
    here.close()
    ctypes.CDLL(None).prctl(1, 9)  # Ends with its parent.
    there.send(_call((fn, item)))
    there.close()
    os._exit(0)

  # Not daemonic: workers are daemons, which may not have children.
  pid = os.fork()
  if pid == 0:
    try:
      main()
    finally:
      os._exit(1)
  there.close()
  try:
    if not here.poll(seconds):
      return {"violations": [violation(
          "no-end", f"no result after {seconds} s", what)]}
    return here.recv()
  except (EOFError, OSError):
    return {"violations": [violation("process-died", "the process died", what)]}
  finally:
    here.close()
    try:
      os.kill(pid, 9)
    except ProcessLookupError:
      pass
    os.waitpid(pid, 0)


# --------------------------------------------------------------- findings


def known_findings(prop: str):
  """Signatures of listed (not fixed) findings of a property -> what fails."""
  result = {}
  if os.path.exists(FINDINGS):
    for line in open(FINDINGS, encoding="utf-8"):
      line = line.strip()
      if line.startswith("finding:"):
        fields = line.split(" ", 3)
        if fields[1] == f"property={prop}" and fields[2].startswith("sig="):
          result[fields[2][4:]] = fields[3] if len(fields) > 3 else ""
  return result


# ----------------------------------------------------------------- report


class Stop(BaseException):
  """Ends a run at its first violation (used when judging changes)."""


class Report:
  """Collects the results of one check run and writes the evidence file."""

  def __init__(self, prop: str, tier: str):
    self.prop, self.tier = prop, tier
    self.t0 = time.time()
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.extra = {}
    self.assumptions = []
    self.bounds = []
    self._violations = {}
    self._known = {}
    self._known_sigs = known_findings(prop)
    self.exhaustive = True

  def add(self, n, key, amount=1):
    pass

  def bump(self, name, amount=1):
    self.extra[name] = self.extra.get(name, 0) + amount

  def sample(self, s, limit=6):
    if len(self.samples) < limit:
      self.samples.append(s)

  def merge(self, r: dict) -> None:
    """Merge a worker's result dict."""
    self.states += r.get("states", 0)
    self.transitions += r.get("transitions", 0)
    self.traces += r.get("traces", 0)
    for k, v in r.get("counts", {}).items():
      self.bump(k, v)
    for s in r.get("samples", []):
      self.sample(s)
    for v in r.get("violations", []):
      self.violate(v)
    self._stop_late()

  def violate(self, v) -> None:
    sig = v["sig"]
    if sig in self._known_sigs:
      self._known.setdefault(sig, [0, v])[0] += 1
    else:
      self._violations.setdefault(sig, []).append(v)
      if os.environ.get("MC_FAIL_FAST"):
        raise Stop()
    self._stop_late()

  def _stop_late(self) -> None:
    """Changed code can be slow: do not go on for long after a violation."""
    if (self._violations and self.tier == "quick" and
        time.time() - self.t0 > 240):
      self.exhaustive = False
      raise Stop()

  def finish(self) -> int:
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage = {
        "states": self.states,
        "transitions": self.transitions,
        "traces_validated_against_impl": self.traces,
        "samples": self.samples or ["(none)"],
        "bounds": self.bounds,
        "exhaustive": self.exhaustive,
    }
    coverage.update(self.extra)
    if self._known:
      coverage["known_findings_seen"] = {k: v[0] for k, v in self._known.items()}
    nviol = sum(len(v) for v in self._violations.values())
    ev = {
        "property": self.prop,
        "tier": self.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": self.assumptions,
        "wall_s": round(time.time() - self.t0, 2),
        "violations": nviol,
    }
    path = os.path.join(EVIDENCE, f"{self.prop}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as f:
      json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)

    for sig, what in self._known_sigs.items():
      if sig in self._known:
        print(f"KNOWN-FINDING: property={self.prop} {what}")

    print(f"{self.prop} {self.tier}: states={self.states} "
          f"transitions={self.transitions} traces={self.traces} "
          f"{self.extra} wall={ev['wall_s']}s")
    if not self._violations:
      return 0

    for i, (sig, vs) in enumerate(self._violations.items()):
      if i >= 5:
        print(f"... and {len(self._violations) - 5} more kinds of violations")
        break
      v = min(vs, key=lambda x: len(str(x["trace"])))
      replay = os.path.join(EVIDENCE, f"{self.prop}-replay-{i}.json")
      with open(replay, "w", encoding="utf-8") as f:
        json.dump({"property": self.prop, "count": len(vs), **v}, f, indent=1,
                  default=str)
      print(f"VIOLATION property={self.prop} replay={replay}")
      print(f"  [{sig}] x{len(vs)}: {v['msg'][:1500]}")
      print(f"  trace: {str(v['trace'])[:1500]}")
    return 1
