#!/usr/bin/env python3
"""Makes and judges planted bugs: seed.py make SPEC.py | seed.py judge ID [TIER].

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (the
text of demo.py) and RAY (whether the demo needs the stub of Ray).
Works on copies of /repo under /dev/shm; nothing here is used by a check.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
SH = """#!/bin/bash
# Run in the repository: exit 0 if the property holds, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/python/src:$D" TF_CPP_MIN_LOG_LEVEL=3
export CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
T=$(mktemp -d) || exit 3
cd "$T" || exit 3
timeout 250 /opt/venv/bin/python "$D/demo.py" "$T"
RC=$?
cd /
rm -rf "${T:?}"
exit $RC
"""
HEAD = """\"\"\"Demonstration: %s\"\"\"
import logging
import os
import sys

logging.disable(logging.CRITICAL)
SCRATCH = sys.argv[1]


def check(ok, what):
  if not ok:
    print("BROKEN:", what)
    sys.exit(1)


"""


def run(cmd, **kw):
  return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                        text=True, check=False, **kw)


def copy(id_):
  d = tempfile.mkdtemp(prefix=f"sc_{id_}_", dir="/dev/shm")
  run(["cp", "-a", "/repo/.", d])
  run(["git", "checkout", "-q", "--", "."], cwd=d)
  return d


def tests(d):
  """Stable tests that do not pass in the copy."""
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             TZ="UTC", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
             PYTHONPATH=d + "/python/src")
  xml, out = d + "/.junit.xml", d + "/.out.json"
  r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p",
           "no:cacheprovider", "--timeout=300",
           "--continue-on-collection-errors", "--ignore=tests/ray", "-o",
           "junit_family=xunit2", f"--junitxml={xml}"], cwd=d + "/python",
          env=env)
  run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{xml}"])
  try:
    passed = set(json.load(open(out))["passed"])
  except Exception as e:  # pylint: disable=broad-except
    return [repr(e), r.stdout[-500:]]
  stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
  return [t for t in stable if t not in passed]


def demo(id_, d):
  # Laid elsewhere, without the patch and the description.
  t = tempfile.mkdtemp(dir="/dev/shm")
  shutil.copytree(os.path.join(SEEDED, id_), t + "/x",
                  ignore=shutil.ignore_patterns("*.diff", "meta.json"))
  r = run(["bash", t + "/x/demo.sh"], cwd=d)
  shutil.rmtree(t)
  return r.returncode, r.stdout[-300:]


def make(spec):
  ns = {}
  exec(open(spec).read(), ns)  # pylint: disable=exec-used
  id_ = ns["ID"]
  out = os.path.join(SEEDED, id_)
  shutil.rmtree(out, ignore_errors=True)
  os.makedirs(out)
  d = copy(id_)
  for f, old, new in ns["EDITS"]:
    p = os.path.join(d, "python/src/space", f)
    s = open(p).read()
    if s.count(old) != 1:
      print(id_, "EDIT does not match once:", f, s.count(old), old[:60])
      shutil.rmtree(d)
      shutil.rmtree(out)
      return
    open(p, "w").write(s.replace(old, new))
  open(out + "/patch.diff", "w").write(
      subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE,
                     text=True, check=True).stdout)
  open(out + "/demo.py", "w").write(HEAD % ns["BREAKS"] +
                                    ns["DEMO"].lstrip("\n"))
  open(out + "/demo.sh", "w").write(SH)
  if ns.get("RAY"):
    shutil.copytree(VERIF + "/raystub/ray", out + "/ray",
                    ignore=shutil.ignore_patterns("__pycache__"))
  json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
             "what_it_breaks": ns["BREAKS"]},
            open(out + "/meta.json", "w"), indent=1)
  bad = tests(d)
  clean, patched = demo(id_, "/repo"), demo(id_, d)
  ok = not bad and clean[0] == 0 and patched[0] != 0
  print(id_, "OK" if ok else "REJECTED", "tests failing:", bad[:4], "clean:",
        clean, "patched:", patched, flush=True)
  shutil.rmtree(d)


def judge(id_, tier="quick", prop=None):
  m = json.load(open(f"{SEEDED}/{id_}/meta.json"))
  d = copy(id_)
  r = run(["git", "apply", f"{SEEDED}/{id_}/patch.diff"], cwd=d)
  if r.returncode:
    print(id_, "patch does not apply", r.stdout)
  prop = prop or m["property"]
  r = run(["python3", VERIF + "/run.py", prop, tier],
          env=dict(os.environ, MC_REPO=d, VERIF_SEED="1", VERIF_TIER=tier,
                   MC_FAIL_FAST="1", MC_EVIDENCE=d + "/.evidence"))
  hit = re.findall(rf"^VIOLATION property={prop} .*$", r.stdout, re.M)
  print(id_, prop, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and hit
        else "MISSED", len(hit), flush=True)
  if "-v" in sys.argv:
    print(r.stdout[-3000:])
  shutil.rmtree(d)


if __name__ == "__main__":
  if sys.argv[1] == "make":
    for s in sys.argv[2:]:
      make(s)
  else:
    for s in [a for a in sys.argv[2:] if a != "-v"]:
      i, *rest = s.split(":")
      judge(i, prop=rest[0] if rest else None)
