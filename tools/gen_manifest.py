#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
base = ("Assurance: no violation in the executions this run observed (counts in the evidence file). Trusted: the independent JSON reader and "
        "reference effects of harness/ref.go and ops.go, the Go runtime and compiler. ")
C = {
 "C01": ("runtime monitor: every lookup of a generated document compared with an independent span-recording JSON reader", "Documents up to about 70 kB, depth 1100, width 5000; a fault that needs more is out of reach."),
 "C02": ("runtime monitor: lookups along paths that do not resolve (near misses built from the document) must give the right error and no value", "Non-canonical index spellings (+1, 01, -0) are not judged."),
 "C03": ("runtime monitor: typed reads compared with values converted independently (strconv/big) from the reference reader's text", "Texts that only some number readers accept (007, 0x1, NaN) are judged only when a wrong value comes back."),
 "C04": ("runtime monitor: type, emptiness and length answers compared with the reference tree", ""),
 "C05": ("runtime monitor: listings compared member by member with the reference tree", "An empty container may be answered with the empty error or an empty listing."),
 "C06": ("runtime monitor: trace checker over callback sequences (exactly once, in order, stops, error passing, retained memory)", ""),
 "C07": ("runtime monitor: each Set/Store result compared with a reference splice, bytes outside the edited place identical", ""),
 "C08": ("runtime monitor: member adds, stores and renames compared with a reference effect; refusals must be refused", ""),
 "C09": ("runtime monitor: appends and inserts compared with a reference effect; refusals must be refused", ""),
 "C10": ("runtime monitor: deletions compared with a reference effect", ""),
 "C11": ("runtime monitor: canary-guarded memory around every argument, snapshots after every call, retained results, overlap check of results and inputs", "Writes are seen where an argument's memory or 64 bytes behind it is touched."),
 "C12": ("runtime monitor: typed writes read back through the reference reader and the package's own readers", "NaN and infinities are outside the property."),
 "C13": ("runtime monitor: built documents parsed by the reference reader and compared with the arguments", "NaN and infinities are outside the property."),
 "C14": ("runtime monitor: scheme histories against a model key list; projections and checks against the reference tree", "Duplicate scheme keys are outside the property."),
 "C15": ("runtime monitor: parsed form compared with the reference tree and the plain functions; tree rendering matched line by line", ""),
 "C16": ("runtime monitor: edit histories on a parsed form against a model document, full readback after each edit", ""),
 "C17": ("runtime monitor: edit histories on a document object against the plain functions and a model document", ""),
 "C18": ("runtime monitor: Flatten compared byte by byte with an independent minifier, Indent checked by a layout checker, all compositions", ""),
 "C19": ("runtime monitor: panic handler, CPU/blocking/heap watchdogs and an allocation meter over exhaustive short strings, damaged documents and hostile histories", "nil receivers, nil callbacks and values that do not come from constructors are outside the property."),
 "C20": ("race detector plus result comparison: concurrent calls on shared inputs against a sequential baseline and the reference", "The race detector sees races of the schedules that ran (also unordered accesses that did not collide); shards run with GOMAXPROCS 2-8."),
}
m = {"version": 1, "setup_cmd": "cd harness && GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off go build -o /dev/null . && GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off go build -race -o /dev/null .",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed at the exported API of the real package, compiled from /repo's working tree on each run. /repo carries only fix: commits (known-findings.txt)."}
for k in sorted(C):
    t, n = C[k]
    m["checks"].append({"property": k, "technique": t, "level": "exploration", "level_note": base + n,
                        "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough", "evidence_file": f"evidence/{k}.json"})
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1)
