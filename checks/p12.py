"""P12: a dataset's directory can be renamed or copied anywhere."""

import hashlib
import itertools
import os
import shutil

import pyarrow as pa

from mc import driver, harness, history, invariant
from mc.driver import World
from mc.harness import exc_str, violation

from checks import long

from space import Dataset
from space.core.random_access import RandomAccessDataSource

W = World("moved", [("r", pa.binary()), ("k", pa.int64()), ("v", pa.string())],
          ["k"], ["r"])


def row(k, x):
  return W.row(b"r%d" % k + x.encode(), k, x)


def alphabet(n):
  x = "abcdefgh"[n]
  return [
      ("append_from", [[row(1, x)], [row(2, x), row(3, x)]], "filear"),
      ("upsert", [row(2, x), row(4, x)], "default"),
      ("delete", ("cmp", "==", "k", 2), "file"),
      ("delete", ("cmp", "<", "k", 3), "default"),
      ("tag", f"t{n}"),
      ("branch", f"b{n}"),
  ]


FOLLOW = [
    [("append", [row(7, "z")], "default"), ("delete", ("cmp", "==", "k", 1))],
    [("upsert", [row(1, "y"), row(7, "y")], "file"), ("tag", "t9"),
     ("delete", ("cmp", ">", "k", 1), "file")],
    [("branch", "b9"), ("checkout", "b9"), ("insert", [row(8, "z")]),
     ("checkout", "main"), ("append", [row(9, "z")])],
]

# How a location is spelled; the working directory is its parent.
SPELL = {
    "absolute": lambda p: p,
    "trailing": lambda p: p + "/",
    "double": lambda p: os.path.dirname(p) + "//" + os.path.basename(p),
    "relative": os.path.basename,
    "dot": lambda p: "./" + os.path.basename(p),
    "dotdot": lambda p: "../" + "/".join(p.split("/")[-2:]),
    "up": lambda p: os.path.dirname(p) + "/nowhere/../" + os.path.basename(p),
}


def fingerprint(root):
  out = []
  for d, dirs, files in os.walk(root):
    dirs.sort()
    for f in sorted(files):
      p = os.path.join(d, f)
      out.append((os.path.relpath(p, root),
                  hashlib.md5(open(p, "rb").read()).hexdigest()))
  return out


def look(loc, model, trace, counts):
  """Everything a fresh handle at `loc` shows."""
  ds = Dataset.load(loc)
  v = history.check_all_versions(ds, W, model, trace)
  v = v or history.check_versions_listed(ds, model, trace)
  v = v or history.check_diffs(ds, W, model, trace, counts)
  v = v or invariant.check_version(ds, W, model.rows(), trace, None, counts)
  if v or not model.rows():
    return v
  try:
    src = RandomAccessDataSource({"r": loc})
    got = sorted(src[i] for i in range(len(src)))
  except Exception as e:  # pylint: disable=broad-except
    return [violation("random-access", exc_str(e), trace)]
  want = sorted(r["r"] for r in model.rows())
  if got != want:
    return [violation("random-access", f"{got}, expected {want}", trace)]
  return []


def _task(item):
  hist, made, opened, how, follow = item
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 1,
         "counts": {}}
  base = harness.new_dir("mv")
  trace = [["created as", made], ["opened as", opened], how]
  v = []
  cwd = os.getcwd()
  try:
    os.makedirs(base + "/one/nowhere")
    os.makedirs(base + "/k=3/v=1 %20ü#*/nowhere")
    old, new = base + "/one/ds", base + "/k=3/v=1 %20ü#*/moved ds"
    os.chdir(base + "/one")
    ds = W.create(SPELL[made](old))
    model, branch = W.model(), "main"
    for op in hist:
      trace = trace + [history.show(W, op)]
      v, _, branch = history.act(ds, W, model, op, trace, branch)
      if v:
        break
    if not v:
      if how == "rename":
        os.rename(old, new)
      else:
        shutil.copytree(old, new)
      mark = fingerprint(base + "/one")
      os.chdir(base + "/k=3/v=1 %20ü#*")
      trace = trace + [how]
      v = look(SPELL[opened](new), model, trace, out["counts"])
      if not v:
        ds, branch = Dataset.load(SPELL[opened](new)), "main"
        m = model.copy()
        for op in follow:
          trace = trace + [history.show(W, op)]
          out["transitions"] += 1
          v, _, branch = history.act(ds, W, m, op, trace, branch)
          if v:
            break
        v = v or look(SPELL[opened](new), m, trace, out["counts"])
        v = v or look(new, m, trace, out["counts"])
      if not v and fingerprint(base + "/one") != mark:
        v = [violation("original-changed", "operations on the moved dataset "
                       "changed files at the original place", trace)]
      if not v and how == "copy":
        v = look(old, model, trace + ["original"], out["counts"])
  except Exception as e:  # pylint: disable=broad-except
    v = [violation(f"raised:{type(e).__name__}", exc_str(e), trace)]
  finally:
    os.chdir(cwd)
    harness.rm(base)
  out["violations"] = v
  return out


def run(report, tier):
  depth = 2 if tier == "quick" else 3
  hists = [()]
  for n in range(1, depth + 1):
    hists += list(itertools.product(*[alphabet(i) for i in range(n)]))
  items = []
  spells = list(SPELL)
  combos = list(itertools.product(spells, spells, ("rename", "copy")))
  i = 0
  for h in hists:
    if tier == "quick" and len(h) > 1 and h[0][0] not in (
        "append_from", "upsert"):
      continue
    for c, (made, opened, how) in enumerate(combos):
      # Every spelling at either end with every history; all pairs of
      # spellings with the histories of length 1.
      if len(h) > 1 and (c + i) % (7 if len(h) == 2 else 14):
        continue
      items.append((h, made, opened, how, FOLLOW[(i + c) % len(FOLLOW)]))
    i += 1
  for word in ("AU", "FD", "TA", "BA", "BUC"):  # more than ten versions
    h = long.expand(word, 14, W, lambda k, n: row(k, f"v{n}"))
    for c, (made, opened, how) in enumerate(combos):
      if c % (20 if tier == "quick" else 5) == 0:
        items.append((h, made, opened, how, FOLLOW[c % len(FOLLOW)]))
  for r in harness.pmap(_task, items, chunksize=4):
    report.merge(r)
  report.sample({"history": [history.show(W, op) for op in items[-1][0]],
                 "created": items[-1][1], "opened": items[-1][2]})
  report.bump("moves", len(items))
  report.bounds.append(
      f"all histories of up to {depth} of 6 actions; all {len(combos)} "
      "combinations of 7 spellings of the old and the new location with "
      "renaming or copying for short histories, a rotating seventh for longer "
      "ones; 3 follow-up sequences; histories of 14 actions")
