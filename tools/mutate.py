#!/usr/bin/env python3
"""Mutation testing of the checks (an aid for finding gaps; no check uses it).

  mutate.py gen OUT.json [FILE...]      lists small changes of the source
  mutate.py tests IN.json OUT.json      keeps those the stable tests do not see
  mutate.py checks IN.json OUT.json     runs the checks of the file until one
                                        reports the change

Works on copies of /repo under /dev/shm.
"""

import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/python/src/space"
PY = "/opt/venv/bin/python"

CHECKS = {
    "core/storage.py": "P02 P18 P08 P17 P01 P12 P10 P03 P05 P07 P06 P21",
    "core/runners.py": "P01 P17 P16 P03 P08 P15 P18 P02 P06 P19",
    "core/ops/append.py": "P25 P10 P09 P01 P11 P16 P19 P06",
    "core/ops/delete.py": "P10 P03 P01 P09 P19 P20",
    "core/ops/insert.py": "P14 P17 P01 P19",
    "core/ops/read.py": "P16 P04 P09 P03 P13 P19 P20",
    "core/ops/change_data.py": "P03 P18 P19 P20",
    "core/ops/utils.py": "P10 P14 P01 P19",
    "core/manifests/falsifiable_filters.py": "P04 P14 P10",
    "core/manifests/index.py": "P10 P04 P15 P01 P21",
    "core/manifests/record.py": "P10 P15 P09",
    "core/loaders": "P15 P10 P17",
    "core/schema": "P11 P09 P17 P22 P10 P15",
    "core/serializers": "P11 P13 P09",
    "core/random_access.py": "P13",
    "core/transform/join.py": "P21 P22",
    "core/transform": "P22 P20 P21",
    "core/views.py": "P20 P22 P21 P23 P19",
    "core/datasets.py": "P02 P18 P22 P20 P12 P13",
    "core/fs": "P05 P06 P12 P07 P09 P15 P23",
    "core/utils": "P12 P23 P05 P02 P15",
    "core/options.py": "P25 P16 P19 P10 P21",
    "core/jobs.py": "P01 P17 P19",
    "catalogs": "P23",
    "ray/ops/join.py": "P21",
    "ray": "P19 P20 P21",
}
SKIP = ("proto/", "lazy_imports", "__init__", "types/tf_features", "errors.py")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
       ast.IsNot: "is"}


def offsets(src):
  out, n = [0], 0
  for line in src.encode().splitlines(keepends=True):
    n += len(line)
    out.append(n)
  return out


def mutants(path):
  src = open(path).read()
  raw, off = src.encode(), offsets(src)
  tree = ast.parse(src)
  found = []

  def span(n):
    return (off[n.lineno - 1] + n.col_offset,
            off[n.end_lineno - 1] + n.end_col_offset)

  def put(node, text, what):
    a, b = span(node)
    found.append((node.lineno, what, a, b, text))

  def text(n):
    a, b = span(n)
    return raw[a:b].decode()

  def walk(node, in_fn):
    for field, value in ast.iter_fields(node):
      if field in ("annotation", "returns", "decorator_list", "bases"):
        continue
      for child in value if isinstance(value, list) else [value]:
        if isinstance(child, ast.AST) and not isinstance(
            child, (ast.Assert, ast.JoinedStr)):
          visit(child, in_fn or isinstance(node, ast.FunctionDef))
          walk(child, in_fn or isinstance(node, ast.FunctionDef))

  def visit(n, in_fn):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      op = CMP.get(type(n.ops[0]))
      if op:
        put(n, f"({text(n.left)} {op} {text(n.comparators[0])})",
            f"compare {op}")
    elif isinstance(n, ast.Compare):
      for k in range(len(n.ops)):
        s = text(n.left)
        for j, (o, c) in enumerate(zip(n.ops, n.comparators)):
          sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
                 ast.Eq: "=="}.get(type(o), "==")
          s += f" {CMP[type(o)] if j == k else sym} {text(c)}"
        put(n, f"({s})", f"chain {k}")
    elif isinstance(n, ast.BoolOp):
      op = " or " if isinstance(n.op, ast.And) else " and "
      put(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "and/or")
      for i in range(len(n.values)):
        rest = [v for j, v in enumerate(n.values) if j != i]
        o = " and " if isinstance(n.op, ast.And) else " or "
        put(n, "(" + o.join(f"({text(v)})" for v in rest) + ")",
            f"drop operand {i}")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      put(n, f"({text(n.operand)})", "drop not")
    elif isinstance(n, ast.Constant) and in_fn:
      if n.value is True or n.value is False:
        put(n, str(not n.value), "flip")
      elif isinstance(n.value, int):
        put(n, str(n.value + 1), "+1")
    elif isinstance(n, ast.BinOp):
      ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.BitAnd: "|",
             ast.BitOr: "&", ast.FloorDiv: "*", ast.Div: "*"}
      if type(n.op) in ops and in_fn and not isinstance(n.left, ast.JoinedStr):
        put(n, f"({text(n.left)} {ops[type(n.op)]} {text(n.right)})", "binop")
    elif isinstance(n, (ast.If, ast.While)):
      if not (isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING"):
        put(n.test, "False", "if False")
        if isinstance(n, ast.If):
          put(n.test, "True", "if True")
    elif isinstance(n, ast.IfExp):
      put(n, f"({text(n.body)})", "always then")
      put(n, f"({text(n.orelse)})", "always else")
    elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call,)):
      if "logging" not in text(n)[:8] and "super()" not in text(n)[:8]:
        put(n, "pass", "drop call")
    elif isinstance(n, ast.AugAssign):
      put(n, "pass", "drop augassign")
      if isinstance(n.op, ast.Add):
        put(n, f"{text(n.target)} = {text(n.value)}", "assign for +=")
    elif isinstance(n, ast.Assign) and in_fn:
      t = n.targets[0]
      if isinstance(t, (ast.Attribute, ast.Subscript)):
        put(n, "pass", "drop assign")
    elif isinstance(n, ast.Delete):
      put(n, "pass", "drop del")
    elif isinstance(n, ast.Continue):
      put(n, "pass", "drop continue")
      put(n, "break", "break for continue")
    elif isinstance(n, ast.Break):
      put(n, "continue", "continue for break")
    elif isinstance(n, ast.Raise):
      put(n, "pass", "drop raise")
    elif isinstance(n, ast.Return) and n.value is not None and in_fn:
      if not (isinstance(n.value, ast.Constant) and n.value.value is None):
        put(n, "return None", "return None")
    elif isinstance(n, ast.Call):
      for k in n.keywords:
        if k.arg:
          a, b = span(k)
          # Remove the argument and one comma.
          e = b
          while e < len(raw) and raw[e:e + 1] in b" \n":
            e += 1
          if raw[e:e + 1] == b",":
            found.append((k.lineno, f"drop {k.arg}=", a, e + 1, ""))
          else:
            found.append((k.lineno, f"drop {k.arg}=", a, b, ""))
      f = n.func
      if isinstance(f, ast.Name) and f.id in ("sorted", "list", "set", "max",
                                              "min", "reversed"):
        if f.id in ("max", "min"):
          put(f, {"max": "min", "min": "max"}[f.id], "max/min")
        elif len(n.args) == 1:
          put(n, f"({text(n.args[0])})", f"drop {f.id}")
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
      put(n, f"({text(n.value)})", "drop slice")

  walk(tree, False)
  rel = os.path.relpath(path, SRC)
  out = []
  for line, what, a, b, t in found:
    new = (raw[:a] + t.encode() + raw[b:]).decode()
    try:
      ast.parse(new)
    except SyntaxError:
      continue
    out.append({"id": f"{rel}:{line}:{len(out)}", "file": rel, "line": line,
                "what": what, "old": raw[a:b].decode(), "a": a, "b": b,
                "new": t})
  return out


def gen(out, files):
  if not files:
    files = []
    for d, _, fs in os.walk(SRC):
      files += [os.path.join(d, f) for f in fs if f.endswith(".py")]
  res = []
  for f in sorted(files):
    if not any(s in f for s in SKIP):
      res += mutants(f)
  json.dump(res, open(out, "w"), indent=1)
  print(len(res), "mutants")


def copy(tag):
  d = tempfile.mkdtemp(prefix=f"sc_{tag}_", dir="/dev/shm")
  subprocess.run(["cp", "-a", "/repo/.", d], check=True)
  subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
  return d


def apply(d, m):
  p = os.path.join(d, "python/src/space", m["file"])
  raw = open(os.path.join(SRC, m["file"]), "rb").read()
  assert raw[m["a"]:m["b"]].decode() == m["old"]
  open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
  return p


def tests(inp, out, workers=8):
  ms = json.load(open(inp))
  todo, lock, left = list(reversed(ms)), threading.Lock(), []
  stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]

  def work():
    d = copy("mut")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               TZ="UTC", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
               OMP_NUM_THREADS="1", PYTHONPATH=d + "/python/src")
    while True:
      with lock:
        if not todo:
          break
        m = todo.pop()
      p = apply(d, m)
      try:
        r = subprocess.run(
            [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
             "-p", "no:xdist", "--ignore=tests/ray", "--deselect",
             "tests/catalogs/test_directory.py::TestDirectoryCatalog::"
             "test_materialized_view_crud"],
            cwd=d + "/python", env=env, stdout=subprocess.PIPE, timeout=240,
            stderr=subprocess.STDOUT, text=True, check=False)
        ok = r.returncode == 0
        m["tests"] = r.stdout[-200:]
      except subprocess.TimeoutExpired:
        ok = False
      shutil.copy(os.path.join(SRC, m["file"]), p)
      with lock:
        if ok:
          left.append(m)
          json.dump(left, open(out, "w"), indent=1)
        if len(todo) % 50 == 0:
          print(len(todo), "to go,", len(left), "survive", flush=True)
    shutil.rmtree(d)

  assert stable
  with concurrent.futures.ThreadPoolExecutor(workers) as ex:
    for f in [ex.submit(work) for _ in range(workers)]:
      f.result()
  print(len(left), "of", len(ms), "survive the tests")


def checks_of(file):
  best = ""
  for k in CHECKS:
    if file.startswith(k) and len(k) > len(best):
      best = k
  return CHECKS.get(best, "").split()


def checks(inp, out, most=20):
  ms = json.load(open(inp))
  done = {}
  if os.path.exists(out):
    done = {m["id"]: m for m in json.load(open(out))}
  d = copy("mutc")
  for n, m in enumerate(ms):
    if m["id"] in done:
      continue
    p = apply(d, m)
    m["caught"] = None
    for c in checks_of(m["file"])[:most]:
      env = dict(os.environ, MC_REPO=d, VERIF_SEED="1", VERIF_TIER="quick",
                 MC_FAIL_FAST="1", MC_EVIDENCE=d + "/.evidence")
      try:
        r = subprocess.run(["python3", VERIF + "/run.py", c, "quick"], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=400, check=False,
                           start_new_session=True)
      except subprocess.TimeoutExpired:
        m["caught"] = c + " (timeout)"
        break
      if r.returncode != 0:
        m["caught"] = c + ("" if "VIOLATION" in r.stdout else
                           f" rc {r.returncode}")
        m["how"] = r.stdout[-300:]
        break
    shutil.copy(os.path.join(SRC, m["file"]), p)
    done[m["id"]] = m
    json.dump(list(done.values()), open(out, "w"), indent=1)
    print(n, len(ms), m["id"], m["what"], "->", m["caught"], flush=True)
  shutil.rmtree(d)


if __name__ == "__main__":
  cmd, *args = sys.argv[1:]
  if cmd == "gen":
    gen(args[0], args[1:])
  elif cmd == "tests":
    tests(*args[:2], *[int(a) for a in args[2:]])
  else:
    checks(*args[:2], *[int(a) for a in args[2:]])
