#!/usr/bin/env python3
"""Entry point of all checks: run.py <property> [quick|thorough]."""

import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
REPO = os.environ.get("MC_REPO", "/repo")


def main() -> int:
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
  if os.environ.get("MC_CHILD") != "1":
    env = dict(os.environ)
    env.update({
        "MC_CHILD": "1",
        "PYTHONPATH": os.path.join(REPO, "python", "src") + os.pathsep + VERIF,
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "TF_CPP_MIN_LOG_LEVEL": "3",
        "CUDA_VISIBLE_DEVICES": "",
        "OMP_NUM_THREADS": "1",
        "TZ": "UTC",
        # Arrow's mimalloc/jemalloc background threads do not survive forks.
        "ARROW_DEFAULT_MEMORY_POOL": "system",
    })
    for k in ("http_proxy", "https_proxy", "LD_PRELOAD"):
      env.pop(k, None)
    shim = os.path.join(VERIF, "build", "fsshim.so")
    if prop in ("P05", "P06", "P07", "P24"):
      if not os.path.exists(shim):
        os.system(f"bash {VERIF}/setup.sh")
      env["LD_PRELOAD"] = shim
    if prop in ("P19", "P20", "P21", "P22", "P23", "P24",
                "P25"):
      env["PYTHONPATH"] += os.pathsep + os.path.join(VERIF, "raystub")
    os.execve(PYTHON, [PYTHON, os.path.abspath(__file__), prop, tier], env)

  sys.path.insert(0, VERIF)
  from mc import harness  # pylint: disable=import-outside-toplevel
  import logging  # pylint: disable=import-outside-toplevel
  logging.disable(logging.CRITICAL)
  rc = 3
  harness.scratch_root()
  try:
    mod = importlib.import_module(f"checks.{prop.lower()}")
    report = harness.Report(prop, tier)
    try:
      mod.run(report, tier)
    except harness.Stop:
      pass
    except Exception as e:  # pylint: disable=broad-except
      # Setting up or observing failed where it does not on correct code.
      import traceback  # pylint: disable=import-outside-toplevel
      report.violate(harness.violation(
          f"unexpected-exception:{type(e).__name__}",
          f"{harness.exc_str(e)}\n{traceback.format_exc()}", ["set up"]))
    rc = report.finish()
  finally:
    harness.remove_scratch()
  return rc


if __name__ == "__main__":
  sys.stdout.flush()
  code = main()
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(code)
