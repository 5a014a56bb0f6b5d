#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from catalogue.py."""
import json
import os
import catalogue

HERE = os.path.dirname(os.path.abspath(__file__))
keys = ("title", "statement", "quantifier", "why_tests_cant", "anchors")
ids = sorted(catalogue.META) + sorted(catalogue.NOT_APPLICABLE)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for i in sorted(ids):
        m = catalogue.META.get(i) or catalogue.NOT_APPLICABLE[i]
        assert len(m["title"]) <= 80, i
        f.write(json.dumps(dict(id=i, **{k: m[k] for k in keys})) + "\n")
checks = []
for i in sorted(catalogue.META):
    m = catalogue.META[i]
    checks.append(dict(
        property=i,
        quick_cmd="python3 run.py %s --tier quick" % i,
        thorough_cmd="python3 run.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="solver-based: path-forking symbolic execution of the real Python code with z3, counterexamples replayed on the unpatched code",
        level="model_checking",
        level_note="Within the bounds of each case (listed in the evidence), z3 decides every branch and every assertion for all values of the symbolic inputs, so a pass means no violation exists in the bounds when the evidence says exhaustive. Outside: %s. Trusted: CPython, mesa/networkx/pandas, z3, the SymNum proxies (validated by concrete re-execution of sampled paths on every run); floats are reals." % m["outside"],
    ))
man = dict(
    version=1,
    setup_cmd="python3 -m compileall -q symx harness run.py catalogue.py && /opt/venv/bin/python -c 'import networkx, mesa, pandas' && /opt/veriftools/pyvenv/bin/python -c 'import z3'",
    checks=checks,
    not_applicable=[dict(property=i, reason=m["reason"]) for i, m in sorted(catalogue.NOT_APPLICABLE.items())],
    notes="No hooks in /repo. known findings and repaired defects: known_findings.jsonl",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
