#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "python/src/space/core/"
R = "python/src/space/ray/"

P = []


def p(id_, title, statement, over, text, why, files, mech, technique, note,
      observe=None):
  P.append(dict(id=id_, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, technique=technique,
                note=note, observe=observe or []))


BFS = ("explicit-state breadth-first search over the real implementation "
       "against a reference model")

p("P01", "Mutation histories read back as the reference semantics",
  "After any sequence of append, append_from, insert, upsert and delete "
  "operations, reading the dataset returns exactly the multiset of rows that "
  "the same sequence produces on a plain table (append adds, insert fails on "
  "an existing key, upsert replaces rows of the same keys, delete removes "
  "exactly the rows on which its filter is true). Every operation reports "
  "SUCCEEDED, FAILED or SKIPPED accordingly, for every file size option and "
  "for index and record fields alike.",
  ["histories", "inputs", "configurations"],
  "all operation sequences, over row values, schemas and file options",
  "Tests run a handful of fixed sequences with default options on one or two "
  "files; the interaction of manifests, several files per manifest, row "
  "groups, rollovers and rewritten files depends on the history.",
  [C + "runners.py", C + "ops/append.py", C + "ops/delete.py",
   C + "ops/insert.py", C + "ops/read.py", C + "storage.py"],
  [("patch of added and removed manifests", C + "storage.py"),
   ("rewrite of modified files and carry-over of the others",
    C + "ops/delete.py"), ("delete-then-append upsert", C + "ops/insert.py")],
  BFS,
  "Exhaustive over all sequences up to the stated depth over small alphabets "
  "in four schemas, each transition executed on the real code; values outside "
  "the alphabets are not covered.")

p("P02", "Versions are immutable, addressable and uniquely numbered",
  "Reading a committed version by snapshot ID, tag or branch returns exactly "
  "the rows it had when committed, whatever operations, tags, branches or "
  "removals follow. Snapshot IDs strictly increase and are never reused, each "
  "successful mutation adds exactly one version, the versions listing names "
  "exactly the live snapshots and references, and reading a version or "
  "reference that does not exist (any more) is rejected.",
  ["histories"],
  "all histories of data operations, tag, branch, checkout and removal",
  "Tests read back two or three versions of one straight-line history.",
  [C + "storage.py", C + "runners.py", C + "ops/delete.py"],
  [("snapshots and references in the storage metadata", C + "storage.py"),
   ("write-once data, manifest and metadata files", C + "utils/paths.py")],
  BFS,
  "Exhaustive over histories up to the stated depth; every live version is "
  "read back after every action, from the acting and from a fresh handle.")

p("P03", "diff lists exactly the changes between two versions",
  "For every version and every ancestor of it, diff lists per snapshot the "
  "primary keys deleted and then the rows added, exactly those the snapshot "
  "changed, in commit order, so that applying them to the ancestor's rows "
  "yields the descendant's rows. It accepts snapshot IDs, tags and branches, "
  "does not depend on the batch size, and rejects a start that is not a "
  "proper ancestor of the end.",
  ["histories"],
  "all histories including branches, and all pairs of their versions",
  "Tests diff a few fixed pairs; whether the feed is complete depends on how "
  "each file was rewritten.",
  [C + "ops/change_data.py", C + "ops/delete.py", C + "ops/append.py",
   C + "storage.py"],
  [("change log written by each commit", C + "storage.py"),
   ("deleted-row bitmaps", C + "ops/delete.py"),
   ("walk over parent snapshots", C + "ops/change_data.py")],
  BFS,
  "Exhaustive over histories up to the stated depth and all pairs of versions "
  "of each.")

p("P04", "Filters never lose or invent rows",
  "Reading with a filter returns exactly the rows on which the filter is true "
  "among all rows of the version, and delete with a filter removes exactly "
  "those rows and keeps the rows on which it is false or null. This holds for "
  "every filter over the dataset's fields, however rows are spread over "
  "files, row groups and manifests, since pruning by statistics is only an "
  "optimisation.",
  ["inputs", "configurations"],
  "all filters of bounded size, field types, values with nulls, and layouts",
  "Tests cover a few filters on one integer key; soundness of pruning is a "
  "statement about all filters and all file contents.",
  [C + "manifests/falsifiable_filters.py", C + "manifests/index.py",
   C + "storage.py", C + "ops/read.py", C + "ops/delete.py"],
  [("falsifiable filter on column statistics",
    C + "manifests/falsifiable_filters.py"),
   ("column statistics of index files", C + "manifests/index.py")],
  "exhaustive enumeration of filters and file contents on the real code "
  "against three-valued reference semantics",
  "Exhaustive over all filters up to the stated size and all placements of "
  "the value domain into files; NaN with != excluded (Arrow itself prunes it).")

p("P05", "A crash at any point leaves the old or the new version, usable",
  "If a process dies at any point of creating a dataset, of a mutation or of "
  "a reference change, every reader afterwards sees either exactly the state "
  "before or exactly the state after that operation, with all earlier "
  "versions intact. The dataset stays fully usable: the next operations "
  "succeed and have their normal effect, and an interrupted creation can be "
  "repeated.",
  ["crash_points", "histories"],
  "every file system effect of every operation kind, including torn writes",
  "Tests never interrupt an operation; the ordering of file writes that "
  "makes commits atomic is invisible to them.",
  [C + "storage.py", C + "fs/arrow.py", C + "ops/append.py",
   C + "ops/delete.py"],
  [("write new metadata, then rename the entry point", C + "storage.py"),
   ("write to a temporary file and rename", C + "fs/arrow.py")],
  "exhaustive crash point enumeration: every prefix (and torn last write) of "
  "the recorded file system effects of the real code is recovered and checked",
  "Exhaustive over crash points of the listed operations on the real code. "
  "Process-crash semantics: completed system calls are durable in order; "
  "power loss reordering is not claimed (the code never syncs).")

p("P06", "A failing file system call never corrupts or fakes a commit",
  "If any single file system call made by an operation fails, the operation "
  "either still reports success and has its full effect, or reports failure "
  "or raises and the dataset shows the state before it (or, when the failure "
  "hits after the commit point, after it), never anything else. Earlier "
  "versions stay intact, and later operations on the same and on fresh "
  "handles work normally.",
  ["fault_sequences", "histories"],
  "every file system call of every operation kind, with several errors",
  "Tests run on a file system that never fails.",
  [C + "storage.py", C + "fs/arrow.py", C + "ops/append.py", C + "runners.py"],
  [("errors propagate before the entry point is renamed", C + "fs/arrow.py"),
   ("in-memory metadata replaced after the write", C + "storage.py")],
  "exhaustive single-fault injection at every file system call of the real "
  "code (LD_PRELOAD shim)",
  "Exhaustive over single faults (open, write, rename, mkdir, close, short "
  "write) at every call of the listed operations.")

p("P07", "Concurrent processes: no lost or torn commit, consistent readers",
  "When several processes operate on one dataset at the same time, every "
  "reader sees exactly one committed version, every operation that reports "
  "success is in the final state exactly once, and one that reports failure "
  "has no effect: the results agree with running the operations one after "
  "another. Exactly one of several concurrent creations of a dataset "
  "succeeds.",
  ["schedules"],
  "all interleavings of file system operations of 2 to 3 processes (bounded)",
  "Tests are sequential; a commit check that races shows only under a "
  "particular interleaving.",
  [C + "storage.py", C + "fs/arrow.py", C + "runners.py"],
  [("check in commit that the base snapshot is still current",
    C + "storage.py"), ("atomic rename of the entry point", C + "fs/arrow.py")],
  "stateless model checking of real processes under a controlled scheduler at "
  "file system operations (dynamic dependency reduction)",
  "Exhaustive over schedules of dependent file system operations within the "
  "stated bounds; the documented unguarded commit window is a known finding, "
  "recognised by its exact overlap.")

p("P08", "Stale handles never lose or mix up other handles' commits",
  "Operations through several handles of one dataset, opened at different "
  "times and on different branches, behave as if executed one after another "
  "on the shared dataset: no commit, tag or branch change of another handle "
  "is lost, ignored or applied to the wrong branch. Reads see the latest "
  "commit, an iterator opened earlier keeps reading its version, and a "
  "transaction whose base was overtaken fails without effect.",
  ["histories", "schedules"],
  "all interleavings of operations through two or three long-lived handles",
  "Tests use a single handle, or reload at hand-picked places.",
  [C + "storage.py", C + "runners.py", C + "datasets.py"],
  [("reload at the start of transactions and reads", C + "runners.py"),
   ("base snapshot check at commit", C + "storage.py")],
  "stateless exhaustive exploration of operation interleavings over "
  "persistent handles against a reference model",
  "Exhaustive over interleavings of whole operations up to the stated depth; "
  "overlap inside operations is P07.")

p("P09", "Record addresses always lead to the row's own record",
  "A record field's value read back for a row is exactly the bytes written "
  "for that row and field, whatever the sizes of batches and record files, "
  "the number of record fields, and the deletes, upserts and rewrites of "
  "other rows since. The stored address of every row is a valid position of "
  "an existing record file holding those bytes.",
  ["inputs", "histories", "configurations"],
  "all batchings, rollover thresholds and rewrites up to a bound",
  "Tests use one record file with default thresholds.",
  [C + "ops/append.py", C + "ops/read.py", C + "ops/delete.py",
   C + "ops/utils.py", C + "fs/array_record.py"],
  [("row counter of the open record file", C + "ops/append.py"),
   ("group by file and restore order", C + "ops/read.py")],
  "exhaustive enumeration of batch shapes, thresholds and rewrite histories "
  "on the real code",
  "Exhaustive over batch shapes and rollover thresholds up to the bound, with "
  "all short rewrite histories on top.")

p("P10", "Manifests and statistics describe exactly the stored data",
  "In every version, the manifests list each data file once, with its true "
  "row count and correct byte counts, primary key bounds that enclose all its "
  "values, and record files with their true number of records; the files "
  "exist and together hold exactly the version's rows. Storage statistics of "
  "a version and of a job's result equal the totals and the change of these "
  "totals.",
  ["histories", "inputs", "configurations"],
  "all histories, field types (including nulls and extreme values), layouts",
  "Tests compare statistics of a few files; correctness must survive "
  "carry-over, rewriting and all types.",
  [C + "manifests/index.py", C + "manifests/record.py", C + "ops/append.py",
   C + "ops/delete.py", C + "ops/utils.py", C + "storage.py"],
  [("column statistics merged over row groups", C + "manifests/index.py"),
   ("statistics of patches", C + "ops/utils.py")],
  BFS + " with an invariant recomputed from the data files",
  "Exhaustive over histories up to the stated depth and over key types and "
  "small value sets.")

p("P11", "Schemas, field IDs and values of every supported type round-trip",
  "For every supported schema, including nested and custom types, reopening a "
  "dataset yields the same fields, types, primary keys and record fields, "
  "every (nested) field has a unique ID that stays the same, and all values "
  "written, including nulls, are read back unchanged. Invalid schemas (keys or "
  "record fields that do not exist, duplicated field names, unsupported types) "
  "are rejected without leaving a dataset behind.",
  ["inputs", "configurations"],
  "all schemas up to a bounded size over all supported types and nestings",
  "Tests fix a few schemas; the mapping must be injective over all nestings.",
  [C + "schema/arrow.py", C + "schema/substrait.py", C + "schema/field_ids.py",
   C + "schema/utils.py", C + "schema/types/files.py",
   C + "schema/types/tf_features.py", C + "serializers/base.py"],
  [("field ID assignment", C + "schema/field_ids.py"),
   ("Substrait type mapping", C + "schema/substrait.py")],
  "exhaustive enumeration of schemas and values on the real code",
  "Exhaustive over all schemas up to the stated number of fields and nesting "
  "depth.")

p("P12", "A dataset can be moved or copied as a directory",
  "After the dataset's directory is renamed or copied to another place, "
  "opening it there gives the same versions, references, diffs, rows and "
  "record values, and all further operations work on the new place only, "
  "leaving the original untouched.",
  ["histories", "configurations"],
  "all short histories, and absolute, relative and trailing-slash locations",
  "No test moves a dataset; a single absolute path in metadata breaks it.",
  [C + "utils/paths.py", C + "storage.py", C + "ops/append.py",
   C + "ops/delete.py"],
  [("paths stored relative to the location", C + "utils/paths.py")],
  BFS + ", each state compared with its relocated copy",
  "Exhaustive over histories up to the stated depth, with all further "
  "operations of the alphabet applied to the moved copy.")

p("P13", "Random access returns each live record exactly once, by position",
  "A random access source over record fields has exactly one element per row "
  "of the current version, and indexing, batched indexing, iteration and "
  "length agree with the records of these rows, after any appends, deletes "
  "and upserts, deserialized or raw, for one or several fields.",
  ["histories", "inputs"],
  "all layouts of live and deleted records over record files, all index lists",
  "Tests read one contiguous file; holes made by deletes change how ranges "
  "are built.",
  [C + "random_access.py", C + "ops/read.py", C + "fs/array_record.py"],
  [("runs of consecutive row IDs per record file", C + "random_access.py")],
  "exhaustive enumeration of live-record subsets and index lists on the real "
  "code",
  "Exhaustive over all subsets of deleted rows of small layouts and all short "
  "index lists.")

p("P14", "insert and upsert keep primary keys unique, all or nothing",
  "A dataset only written by insert and upsert never holds two rows with the "
  "same primary key; insert either adds all its rows or, if any key exists or "
  "is repeated in its input, adds none and reports failure; upsert leaves for "
  "each of its keys exactly the new row and touches no other key. This holds "
  "for every key type, for compound keys, and however rows are spread over "
  "files.",
  ["inputs", "histories", "configurations"],
  "all key types and key sets, input batches, layouts and short histories",
  "Tests use integer keys in one file.",
  [C + "ops/insert.py", C + "ops/utils.py", C + "ops/delete.py",
   C + "storage.py"],
  [("key filter and duplicate check", C + "ops/utils.py")],
  "exhaustive enumeration of key sets, batches and layouts on the real code",
  "Exhaustive over pairs of stored and written key sets for each type, keys "
  "close to each other in the type's order; null, NaN and signed zero keys "
  "are excluded.")

p("P15", "External files load as if appended",
  "Loading external Parquet or ArrayRecord files gives the same rows, diffs, "
  "job states, filter results and later mutations as appending their contents, "
  "whatever the files' row groups, column order and number, and whether the "
  "path pattern is absolute or relative. The external files are never "
  "modified, and a pattern matching no rows changes nothing.",
  ["inputs", "histories", "configurations"],
  "all sets of small external files, patterns and short histories after it",
  "Tests load one or two files and read them once.",
  [C + "loaders/parquet.py", C + "loaders/array_record.py",
   C + "manifests/index.py", C + "ops/change_data.py"],
  [("manifest rows pointing to external files", C + "loaders/parquet.py"),
   ("index built by a user function", C + "loaders/array_record.py")],
  BFS,
  "Exhaustive over file sets, row group sizes and following operations up to "
  "the stated depth.")

p("P16", "Read options select columns and batches without changing data",
  "Selecting fields, a batch size, reference reads, filters and versions, in "
  "any combination, returns exactly the selected part of the same rows: "
  "batches never exceed the batch size and together hold each row once, "
  "selected columns keep row alignment, and references resolve to the same "
  "record values.",
  ["configurations", "inputs"],
  "all combinations of read options over several layouts",
  "Tests try single options on single files.",
  [C + "ops/read.py", C + "options.py", C + "runners.py"],
  [("column selection and batching", C + "ops/read.py")],
  "exhaustive enumeration of read option combinations on the real code",
  "Exhaustive over all field subsets, batch sizes and filters listed, on "
  "every listed layout.")

p("P17", "Operations that do nothing or are rejected leave no trace",
  "An operation that is skipped, fails or raises (no matching row, empty "
  "input, duplicate key, incompatible data, a failing input iterator, an "
  "invalid reference, branch or version, creating over an existing dataset) "
  "leaves versions, references, rows and statistics exactly as they were. "
  "Afterwards the same handle continues to work normally.",
  ["inputs", "histories"],
  "all kinds of rejected operations at every point of short histories",
  "Tests check that an error is raised, not that nothing changed and the "
  "handle still works.",
  [C + "runners.py", C + "storage.py", C + "ops/append.py",
   C + "ops/insert.py", C + "schema/utils.py"],
  [("patch is None means skipped", C + "runners.py"),
   ("validation before metadata is written", C + "storage.py")],
  BFS,
  "Exhaustive: every rejected operation kind is tried in every state reached "
  "by the alphabet up to the stated depth, followed by every normal one.")

p("P18", "Branches are isolated from each other",
  "Changes made on one branch are visible on that branch only: the main line "
  "and other branches keep their rows and heads until they are changed "
  "themselves. A branch starts with the rows it was created from, its history "
  "is linear from there, and removing or adding references never changes the "
  "rows of another branch.",
  ["histories"],
  "all interleavings of operations over main and two branches up to a depth",
  "Tests make one commit on one branch.",
  [C + "storage.py", C + "runners.py", C + "datasets.py"],
  [("commit on the head of the handle's branch", C + "storage.py")],
  BFS,
  "Exhaustive over interleavings of operations on three lines of development "
  "up to the stated depth.")

p("P19", "The distributed runner computes the same as the local one",
  "For every operation, parallelism and order in which its distributed tasks "
  "execute, the Ray runner reports the same state and leaves the same rows, "
  "and its reads and diffs return the same data, as the local runner. If a "
  "task fails the operation raises and the dataset is unchanged, and a task "
  "executed twice has no further effect.",
  ["schedules", "inputs", "configurations"],
  "all task execution orders, parallelism, layouts and operations",
  "Tests run one schedule on small data; some partitions of files over tasks "
  "never occur.",
  [R + "runners.py", R + "ops/append.py", R + "ops/delete.py",
   R + "ops/insert.py", R + "ops/change_data.py", R + "data_sources.py"],
  [("patches of the tasks merged into one", C + "ops/utils.py")],
  "stateless exploration of all task orders of the real runner on a stub Ray "
  "with a controlled scheduler, compared with the reference model",
  "Exhaustive over task orders on the listed datasets. Ray is not installed: "
  "a stub implementing the used API executes tasks, serializing arguments.")

p("P20", "A refreshed materialized view equals the view of its source",
  "After a refresh to a version of the source, a materialized view holds "
  "exactly the result of applying the view's transform to the source at that "
  "version, whatever operations changed the source since and whatever "
  "refreshes to intermediate versions were made before; refreshing again "
  "changes nothing. An interrupted or concurrent refresh leaves the view at "
  "some version of its source, and a later refresh completes it.",
  ["histories", "schedules"],
  "all source histories and all choices of refresh points up to a depth",
  "Tests refresh after two or three fixed commits.",
  [R + "runners.py", C + "transform/udfs.py", C + "views.py",
   C + "ops/change_data.py"],
  [("one commit of the view per source commit", R + "runners.py")],
  BFS + " (stub Ray)",
  "Exhaustive over source histories and refresh points up to the stated "
  "depth on a stub Ray.")

p("P21", "Join returns every matching pair exactly once",
  "Joining two views on a key returns exactly the pairs of rows with equal "
  "keys, whatever the contents and file layout of both sides (including empty "
  "or disjoint ones) and however the key range is partitioned.",
  ["inputs", "configurations"],
  "all small contents of both sides and all partitions of the key range",
  "Tests join one pair of datasets with one partition.",
  [R + "ops/join.py", C + "transform/join.py"],
  [("key range split into half-open ranges", R + "ops/join.py")],
  "exhaustive enumeration of inputs and partitions on the real code (stub Ray)",
  "Exhaustive over key sets of both sides and partitions up to the bound.")

p("P22", "A stored view definition reloads to the same transform",
  "A materialized view loaded from its location has the same schema, keys, "
  "record fields and sources, and its transform computes the same rows as the "
  "view it was created from, for every composition of map and filter.",
  ["programs", "configurations"],
  "all chains of transforms up to a bounded length and input field choices",
  "Tests store two fixed views.",
  [C + "transform/plans.py", C + "transform/udfs.py", C + "views.py"],
  [("logical plan with pickled functions", C + "transform/plans.py")],
  "exhaustive enumeration of transform chains on the real code",
  "Exhaustive over chains up to the stated length over the listed transforms.")

p("P23", "A catalog shows exactly the datasets that exist",
  "A catalog lists exactly the datasets and materialized views created in it, "
  "opens each by name with the contents and kind it has, refuses to create a "
  "dataset over an existing one without touching it, and rejects names that "
  "do not exist.",
  ["histories"],
  "all sequences of create, open, modify and list over a few names",
  "Tests create one or two datasets.",
  ["python/src/space/catalogs/directory.py", C + "storage.py", C + "views.py"],
  [("entry point file marks a dataset", C + "storage.py")],
  BFS,
  "Exhaustive over action sequences up to the stated depth over two names.")

p("P24", "Stored files are never changed, and reading changes nothing",
  "Every operation on a dataset only adds new files below the dataset's "
  "directory: no existing data, manifest or metadata file is overwritten, "
  "truncated, renamed or removed, except that the entry point is replaced "
  "atomically by a rename (also when the operation is rejected or fails). "
  "Loading, reading, diffing, listing, random access, reading views and joins "
  "have no effect on the file system at all.",
  ["histories"],
  "all histories of operations, over every file system effect of each",
  "Tests look at results; they would not see a file rewritten in place, or "
  "touched by a reader, as long as the contents come out right.",
  [C + "fs/arrow.py", C + "storage.py", C + "ops/append.py",
   C + "ops/delete.py", C + "utils/paths.py", C + "runners.py"],
  [("new file names from UUIDs", C + "utils/paths.py"),
   ("entry point replaced by rename", C + "fs/arrow.py")],
  "exhaustive enumeration of operation histories on the real code, judging "
  "each recorded file system effect",
  "Exhaustive over histories up to the stated depth; effects are recorded "
  "below the dataset's directory and its siblings.")

p("P25", "Files and row groups keep to the sizes of the file options",
  "For every sequence of written batches and all file options, a row group "
  "without its last batch, a Parquet file without its last row group, and a "
  "record file without its last batch are within the configured limits, and "
  "none but the last of each writer is closed below its limit. This holds for "
  "appends, inserts, upserts, the files rewritten by deletes and loads, local "
  "and distributed; record files are written with the given ArrayRecord "
  "options.",
  ["inputs", "configurations"],
  "all sequences of batch sizes, over all orders of the limits",
  "Tests write a few batches with default limits and rarely look at the "
  "files; counters that are not reset, or a limit that is not passed on, show "
  "only in the layout.",
  [C + "ops/append.py", C + "ops/delete.py", C + "ops/insert.py",
   C + "options.py", C + "runners.py", C + "loaders/array_record.py",
   R + "ops/append.py", R + "ops/delete.py", R + "runners.py"],
  [("row group and file thresholds", C + "ops/append.py"),
   ("options passed from runners to operations", C + "runners.py")],
  "exhaustive enumeration of batch sequences and limits on the real code",
  "Exhaustive over sequences of small batches and orders of the limits; a "
  "batch given at once is assumed to be written at once.")


NOT_CLAIMED = {}


def main():
  with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
      f.write(json.dumps({
          "id": x["id"], "title": x["title"], "statement": x["statement"],
          "quantifier": {"over": x["over"], "text": x["text"]},
          "why_tests_cant": x["why"],
          "anchors": {
              "files": x["files"],
              "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
              "hook_needed": None,
          }}) + "\n")
  checks, na = [], []
  for x in P:
    if os.path.exists(os.path.join(V, "checks", x["id"].lower() + ".py")):
      checks.append({
          "property": x["id"],
          "quick_cmd": f"python3 run.py {x['id']} quick",
          "thorough_cmd": f"python3 run.py {x['id']} thorough",
          "evidence_file": f"evidence/{x['id']}.json",
          "technique": x["technique"],
          "level": "model_checking",
          "level_note": x["note"],
      })
    else:
      na.append({"property": x["id"],
                 "reason": NOT_CLAIMED.get(x["id"], "check under construction")})
  with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
               "not_applicable": na}, f, indent=1)
    f.write("\n")
  for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))


main()
