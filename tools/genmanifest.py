#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks registered in mc/checks."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for f in glob.glob(V + "/mc/checks/*.go"):
    have |= set(re.findall(r'core\.Check\{\s*ID:\s*"(C\d\d)"', open(f).read()))

VIRT = ("explicit enumeration of all documents of a bounded space, each executed by the real processor on a virtual page engine "
        "(dyadic metrics, every engine call recorded) and judged against an independent model")
REAL = "explicit enumeration of all inputs/operation sequences of a bounded space on the real code, judged against an independent model"
TECH = {
 "C01": REAL + " (all words x pattern sets)", "C02": REAL + " (reference Liang algorithm)",
 "C03": REAL + " with a read fault injected after every byte and every chunking", "C04": REAL + " (all strings up to a length)",
 "C18": REAL + " (declaration/sheet grammar) under every map iteration order (instrumented build)",
 "C19": REAL + " under every map iteration order (instrumented build)",
 "C21": REAL + " (document trees x spellings x readers)",
 "C22": REAL + " (every cut, read fault, tag mutation, malformed value at every place)",
 "C23": REAL + " under every map iteration order (instrumented build)",
 "C24": VIRT, "C25": REAL + " (images x sizes x places, PDF content parsed back)",
 "C26": REAL + " (formats x orientations x margins, PDF parsed back)",
 "C27": REAL + " with a write fault at every write and byte, PDF parsed back",
 "C28": "stateless model checking: all operation histories up to a depth, and all goroutine interleavings at statement granularity up to a preemption bound under a controlled scheduler with the race detector",
 "C29": REAL + " (font definitions x styles x texts, PDF text parsed back)",
 "C30": "explicit enumeration of all invocations and file-system situations of the real command binaries in scratch directories",
 "C31": REAL + " (all engine operation sequences up to a depth: real engine and virtual engine compared after every operation)",
}
NOTE = ("Exhaustive within the bounds listed in the evidence file (spaces, cases, states, transitions); every case runs the real code of /repo's working tree, "
        "so no model-to-code gap other than the virtual engine, which C31 binds to the real one. Assumes inputs beyond the bounds behave like those within.")
NOTER = ("Exhaustive within the bounds listed in the evidence file; every case runs the real code of /repo's working tree and is compared with an independent reference. "
         "Assumes inputs beyond the bounds behave like those within.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    virt = i not in TECH or TECH[i] == VIRT
    checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, VIRT), "level": "model_checking",
                   "level_note": NOTE if virt else NOTER})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation (map order, scheduler) is generated at check time from the current sources and put in by -overlay. run.sh replay FILE repeats a reported case."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
