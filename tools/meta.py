#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the single place where properties are stated)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, mech, over=("inputs",), na=None, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, mech=mech, over=list(over), na=na, note=note, state=state))

exec(open(os.path.join(H, "tools", "properties_table.py")).read())

NOTE = ("Every input within the bounds listed in the harness header (harness/%s.cpp) is covered by solver verdicts over the LLVM IR of the real header, "
        "compiled on every run; memory errors and assertion failures are checked on every path, counterexamples are replayed natively under ASan/UBSan "
        "before they are reported. Trusted: clang -O2 front end, the executor's semantics (cross-checked by replaying sampled paths natively), Z3, the reference model in the harness. ")
props, checks, na = [], [], []
for q in sorted(P, key=lambda x: x["id"]):
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    assert len(re.findall(r"\.(?:\s|$)", q["statement"])) <= 3, q["id"]
    d = {"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
         "anchors": {"files": ["strtk.hpp"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}
    props.append(d)
    if q["na"]: na.append({"property": q["id"], "reason": q["na"]})
    elif os.path.exists(os.path.join(H, "harness", q["id"] + ".cpp")):
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                       "technique": "symbolic execution of the LLVM IR of the real header with SMT (Z3) verdicts", "level": "model_checking", "level_note": (NOTE % q["id"]) + q["note"]})
    else: na.append({"property": q["id"], "reason": "harness not built yet"})
open(os.path.join(H, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in props))
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
           "notes": "Known findings and fixed defects: known_findings.txt. Design: DESIGN.md. Planted bugs: seeded/. check.py exits 0 when a job is inconclusive (solver unknown, time budget, unsupported instruction); the evidence lists such jobs under 'incomplete'."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
