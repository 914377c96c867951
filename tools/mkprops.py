#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "nyx-core/src/"
TECH = "symbolic execution of the compiled LLVM IR of the real code + SMT (z3, cvc5), counterexamples replayed natively"
NOTE = ("Every feasible path of the real code within the harness bounds is executed symbolically and each assertion decided by an SMT solver; "
        "a counterexample counts only once the compiled program reproduces it. Trusted: rustc's IR, the engine (/verif/engine), z3/cvc5; f64 arithmetic is taken as exact real arithmetic, "
        "transcendental functions as uninterpreted with axioms; single-threaded.")
P = []
def p(id, title, statement, over, text, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"], "anchors": {"files": [N + f for f in x["files"]], "mechanism": [{"name": n, "where": N + w} for n, w in x["mech"]]}}) + "\n")
na_ids = {x["property"] for x in NA}
man = {"version": 1, "setup_cmd": "python3 run.py --build",
    "checks": [{"property": x["id"], "quick_cmd": f"python3 run.py {x['id']} quick", "thorough_cmd": f"python3 run.py {x['id']} thorough",
        "technique": TECH, "level": "other", "level_note": (x["note"] + " " if x["note"] else "") + NOTE} for x in P if x["id"] not in na_ids],
    "not_applicable": NA, "hooks": {"guard": "cfg(nyx_vp)", "enable": "harness/.cargo/config.toml passes --cfg nyx_vp to rustc (build.rustflags)", "source_commits": ["ebd6ca2"]},
    "notes": "One hook in /repo (a constructor of GravityFieldData from coefficients, instead of from a file); otherwise the harnesses use the public API only. Repairs are 'fix:' commits, listed in known_findings.jsonl."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
