#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import bounds, props
def describe(r):
    q = dict(r.get("p", {}), **r.get("pq", {}))
    t = dict(r.get("p", {}), **r.get("pt", {}))
    a, b = bounds.text(r["entry"], q), bounds.text(r["entry"], t)
    more = "" if a == b else " (thorough: with %s)" % ", ".join("%s=%d" % (k, v) for k, v in t.items() if q.get(k) != v)
    return "%s: %s%s" % (r["entry"], a, more)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="symbolic execution of the compiled sources (LLVM IR), path conditions and assertions decided by an SMT solver (Z3)",
            level="model_checking", level_note=("Every input within these bounds: " + "; ".join(describe(r) for r in s["runs"]) +
            ". Nothing is claimed outside them. Trusted: clang's translation to LLVM IR, the executor in engine/, Z3, the reference model in harness/ and the library stubs in runtime/symrt.cpp; "
            "sampled paths are replayed against a natively compiled sanitizer build and must behave identically, and a violation is reported only if the native build shows it.")))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "No check yet.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks compile /repo's unmodified sources. Known and fixed findings: KNOWN_FINDINGS.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
