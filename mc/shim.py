"""Python side of the LD_PRELOAD file system shim, and journal replay."""

import ctypes
import os
import struct

_lib = ctypes.CDLL(None)
try:
  _lib.fsshim_present
except AttributeError as e:
  raise RuntimeError("fsshim.so is not preloaded") from e

_lib.fsshim_failed_op.restype = ctypes.c_char_p
_lib.fsshim_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int,
                              ctypes.c_long]
_lib.fsshim_fault_stop.restype = ctypes.c_long


def root(path):
  _lib.fsshim_root(os.path.abspath(path).encode())


def journal(file):
  _lib.fsshim_journal(file.encode())


def journal_stop():
  _lib.fsshim_journal_stop()


def fault(at, errno, reads=False, short=0):
  _lib.fsshim_fault(at, errno, int(reads), short)


def fault_stop():
  return _lib.fsshim_fault_stop()


def failed_op():
  return _lib.fsshim_failed_op().decode()


def sched(wfd, rfd):
  _lib.fsshim_sched(wfd, rfd)


def sched_stop():
  _lib.fsshim_sched_stop()


def off():
  _lib.fsshim_off()


def parse(file, base):
  """[(kind, path, path2 or bytes, offset)] with paths relative to base."""
  base = os.path.abspath(base)
  data = open(file, "rb").read()
  out, i = [], 0
  rel = lambda p: os.path.relpath(p.decode(), base)
  while i < len(data):
    kind = chr(data[i])
    n, = struct.unpack_from("<I", data, i + 1)
    path = data[i + 5:i + 5 + n]
    i += 5 + n
    m, = struct.unpack_from("<I", data, i)
    p2 = data[i + 4:i + 4 + m]
    i += 4 + m
    off_, = struct.unpack_from("<q", data, i)
    i += 8
    if kind == "?":
      raise RuntimeError(f"unsupported stdio write to {path}")
    if kind == "x":
      continue
    out.append((kind, rel(path), p2 if kind == "w" else
                (rel(p2) if m else None), off_))
  return out


class Tree:
  """An in-memory directory tree: path -> bytes (file) or None (directory)."""

  def __init__(self, nodes=None):
    self.nodes = dict(nodes or {})

  @classmethod
  def read(cls, base):
    t = cls()
    for dirpath, dirs, files in os.walk(base):
      for d in dirs:
        t.nodes[os.path.relpath(os.path.join(dirpath, d), base)] = None
      for f in files:
        p = os.path.join(dirpath, f)
        with open(p, "rb") as fh:
          t.nodes[os.path.relpath(p, base)] = fh.read()
    return t

  def apply(self, effect):
    kind, path, arg, off_ = effect
    n = self.nodes
    if kind == "c":
      n[path] = b""
    elif kind == "w":
      old = n.get(path, b"")
      if len(old) < off_:
        old += b"\0" * (off_ - len(old))
      n[path] = old[:off_] + arg + old[off_ + len(arg):]
    elif kind == "t":
      n[path] = n[path][:off_].ljust(off_, b"\0")
    elif kind == "r":
      if path == ".":
        raise RuntimeError("root renamed")
      moved = {p: v for p, v in n.items()
               if p == path or p.startswith(path + os.sep)}
      for p in moved:
        del n[p]
      for p, v in moved.items():
        n[arg + p[len(path):]] = v
    elif kind == "l":
      n[arg] = n[path]
    elif kind in ("u", "R"):
      n.pop(path, None)
    elif kind == "m":
      if path != ".":
        n.setdefault(path, None)
    else:
      raise RuntimeError(f"unknown effect {kind}")

  def write(self, base):
    os.makedirs(base, exist_ok=True)
    for p in sorted(self.nodes):
      v = self.nodes[p]
      full = os.path.join(base, p)
      if v is None:
        os.makedirs(full, exist_ok=True)
      else:
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
          f.write(v)


def torn(effect, forms=(1, 2, 3)):
  """Partial forms of a write effect: 1 byte, half, all but one byte."""
  kind, path, arg, off_ = effect
  if kind != "w":
    return
  n = len(arg)
  for k in sorted({{1: 1, 2: n // 2, 3: n - 1}[f] for f in forms}):
    if 0 < k < n:
      yield (kind, path, arg[:k], off_)
