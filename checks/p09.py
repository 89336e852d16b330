"""P09: record values follow their rows through batching and rewriting."""

import itertools
import os

import pyarrow as pa

from mc import driver, expr, harness
from mc.driver import World
from mc.harness import exc_str, violation
from mc.model import SUCCEEDED

from checks import long

from space import ArrayRecordOptions, Dataset, FileOptions
from space import ParquetWriterOptions
from array_record.python import array_record_module as ar

_CTX = {}

W1 = World("one", [("k", pa.int64()), ("r", pa.binary())], ["k"], ["r"])
W2 = World("two", [("q", pa.binary()), ("k", pa.int64()),
                   ("v", pa.string()), ("r", pa.binary())], ["k"],
           ["r", "q"])

# Payload lengths by row: empty records and records above a threshold.
LENGTHS = (3, 0, 11, 3, 7, 1)


def row(w, k, gen=0):
  b = lambda f: (f"{f}{k}.{gen}:" + "z" * LENGTHS[k % 6]).encode() if (
      LENGTHS[k % 6]) else b""
  if w.name == "one":
    return w.row(k, b("r"))
  return w.row(b("q"), k, f"v{gen}", b("r")[::-1])


def options(ar_bytes, pq_opts):
  p = {} if pq_opts is None else {
      "max_uncompressed_row_group_bytes": pq_opts[0],
      "max_uncompressed_file_bytes": pq_opts[1]}
  a = {} if ar_bytes is None else {"max_uncompressed_file_bytes": ar_bytes}
  return FileOptions(parquet_options=ParquetWriterOptions(**p),
                     array_record_options=ArrayRecordOptions(**a))


def shapes(n, empties):
  """All ways to split rows 0..n-1 into batches, optionally with empty ones."""
  for cuts in itertools.product((0, 1), repeat=n - 1):
    out, cur = [], [0]
    for i, c in enumerate(cuts, 1):
      if c:
        out.append(cur)
        cur = []
      cur.append(i)
    out.append(cur)
    yield out
    if empties:
      for at in range(len(out) + 1):
        yield out[:at] + [[]] + out[at:]


def check(loc, w, model, trace, counts):
  """Values read back, and every stored address resolved by hand."""
  ds = Dataset.load(loc)
  v = driver.expect_bag("read_all", lambda: driver.read_bag(ds, w.fields),
                        model.bag(model.rows()), trace)
  v = v or driver.expect_bag(
      "read_all in batches",
      lambda: driver.read_bag(ds, w.fields, batch_size=2),
      model.bag(model.rows()), trace)
  if v:
    return v
  try:
    t = ds.local().read_all(reference_read=True)
  except Exception as e:  # pylint: disable=broad-except
    return [violation("reference-read-raised", exc_str(e), trace)]
  rows = [] if t is None else t.to_pylist()
  by_key = {r["k"]: r for r in model.rows()}
  if len(rows) != len(by_key):
    return [violation("reference-read", f"{len(rows)} rows, expected "
                      f"{len(by_key)}", trace)]
  used = set()
  cache = {}
  for r in rows:
    for f in w.rec:
      a = r[f]
      vals = sorted(a.items(), key=lambda x: isinstance(x[1], int))
      path, pos = vals[0][1], vals[1][1]
      full = os.path.join(loc, path)
      if (path, pos) in used:
        return [violation("address-shared", f"{path}:{pos}", trace)]
      used.add((path, pos))
      if path not in cache:
        if not os.path.exists(full):
          return [violation("address-file", f"{path} does not exist", trace)]
        reader = ar.ArrayRecordReader(full)
        cache[path] = (reader.read_all() if reader.num_records() else [])
        reader.close()
      if not 0 <= pos < len(cache[path]) or (
          cache[path][pos] != by_key[r["k"]][f]):
        return [violation(
            "address", f"row {r['k']}.{f} at {path}:{pos} of "
            f"{len(cache[path])}, expected {by_key[r['k']][f]!r}", trace)]
      counts["addresses"] = counts.get("addresses", 0) + 1
  return []


def apply(loc, w, model, op, fo, trace):
  ds = Dataset.load(loc)
  want = model.apply(op)
  try:
    got = driver.run_op(ds, w, op, ds.local(fo))
  except Exception as e:  # pylint: disable=broad-except
    return [violation(f"raised:{op[0]}", exc_str(e), trace)]
  if driver.state_of(got) != want:
    return [violation(f"state:{op[0]}", f"{driver.state_of(got)} "
                      f"{got.error_message}, expected {want}", trace)]
  return []


def _task(item):
  w, n, batches, ar_bytes, pq_opts, how, tier = item
  out = {"violations": [], "transitions": 0, "states": 1, "traces": 0,
         "counts": {}}
  fo = options(ar_bytes, pq_opts)
  loc = harness.new_dir("p9")
  w.create(loc)
  model = w.model()
  base = [["rows per batch", batches], ["record file bytes", ar_bytes],
          ["row group, file bytes", pq_opts], how]
  if how == "one operation":
    ops = [("append_from", [[row(w, k) for k in b] for b in batches])]
  else:
    ops = [("append", [row(w, k) for k in b]) for b in batches]
  for op in ops:
    v = apply(loc, w, model, op, fo, base)
    out["transitions"] += 1
    v = v or check(loc, w, model, base, out["counts"])
    if v:
      out["violations"] += v
      harness.rm(loc)
      return out
  # Rewrites: every subset of rows deleted or upserted, then one more change.
  rewrites = []
  subsets = [s for k in range(1, n + 1)
             for s in itertools.combinations(range(n), k)]
  if tier == "quick" and n > 3:
    subsets = [s for s in subsets if len(s) in (1, n - 1) or s == (0, 2)]
  for s in subsets:
    rewrites.append([("delete", ("isin", "k", list(s)))])
    rewrites.append([("upsert", [row(w, k, 1) for k in reversed(s)])])
  more = [("upsert", [row(w, 1, 2), row(w, n, 2)]),
          ("delete", ("cmp", "==", "k", n - 1))]
  for i, rw in enumerate(rewrites):
    ops = rw + ([more[i % 2]] if tier == "quick" else [])
    tails = [[]] if tier == "quick" else [[more[0], more[1]],
                                          [more[1], more[0]]]
    for tail in tails:
      d = harness.new_dir("p9c")
      driver.copy_tree(loc, d)
      m, t = model.copy(), base
      for op in ops + tail:
        t = t + [driver.show_op(w, op)]
        v = apply(d, w, m, op, fo, t)
        out["transitions"] += 1
        v = v or check(d, w, m, t, out["counts"])
        if v:
          out["violations"] += v
          break
      out["traces"] += 1
      harness.rm(d)
  harness.rm(loc)
  return out


def run(report, tier):
  quick = tier == "quick"
  items = []
  ars = (None, 1, 9, 20)
  pqs = (None, (1, 1), (1, None), (60, 120))
  pqs = [p if p is None or p[1] else (1, 1 << 30) for p in pqs]
  for w in (W1, W2):
    for n in range(1, (4 if quick else 5) + 1):
      for b in shapes(n, empties=n <= (2 if quick else 3)):
        for a in ars:
          for p in pqs:
            if quick and n == 4 and (w.name == "one") == (p in (None, (1, 1))):
              continue
            items.append((w, n, b, a, p, "one operation", tier))
          if all(b) and len(b) > 1 and not (quick and n == 4):
            items.append((w, n, b, a, (1, 1), "one operation per batch", tier))
  for r in harness.pmap(_task, items, chunksize=2):
    report.merge(r)
  long.add(report, tier, "AFUDR", ("invariant", "random_access"))
  report.sample({"batches": items[-1][2], "thresholds": items[-1][3:5]})
  report.bump("layouts", len(items))
  report.bounds.append(
      f"all splits of up to {4 if quick else 5} rows into batches (with an "
      "empty batch for few rows), record file thresholds 1, 9, 20 bytes and "
      "default, 4 Parquet thresholds, 1 or 2 record fields; then every subset "
      "of rows deleted or upserted (quick: with 4 rows, subsets of size 1 and "
      "3) and a further change")
