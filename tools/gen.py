#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled LLVM IR of the real crates; SMT (z3/cvc5) decides every obligation; counterexamples replayed natively"
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note=None, claimed=True, reason=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note, claimed=claimed, reason=reason, observe=observe))


A, D, L, F, B = "algebra/src/", "algebra_derive/src/", "lattice/src/", "fhe_core/src/", "bool/src/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["claimed"]:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt engine/run.py %s --tier quick" % p["id"], thorough_cmd="python3-vt engine/run.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="model_checking", level_note=p["note"] or "Exhaustive within the bounds listed per harness in the evidence (solver verdict over all values); trusts rustc's IR, the IR semantics of /verif/engine (cross-checked by native replay of every path witness) and the SMT solvers."))
    else:
        na.append(dict(property=p["id"], reason=p["reason"]))
man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
           notes="Every check rebuilds the harness crate irh/ against /repo's working tree through a mirror in .work/ws (the git dependency concrete-ntt is stripped, as in /opt/vp/mkws.py), extracts LLVM IR and runs it symbolically. No hooks in /repo are needed.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
