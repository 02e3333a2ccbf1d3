"""Writes properties.jsonl and MANIFEST.json from the table below (development aid; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "contract-based deductive verification of the real functions (own obligation generator over the clang AST, z3 + cvc5)"


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), level_note="", claim=True, reason="", observe=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, (id, len(title))
    P.append((d, claim, level_note, reason))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt -c \"import sys; sys.path.insert(0,'vc'); import ir; ir.ensure_extractor()\"",
     "checks": [{"property": d["id"], "quick_cmd": "python3-vt vc/check.py %s --tier quick" % d["id"], "thorough_cmd": "python3-vt vc/check.py %s --tier thorough" % d["id"], "technique": TECH, "level": "proof", "level_note": ln}
                for d, c, ln, r in P if c],
     "not_applicable": [{"property": d["id"], "reason": r} for d, c, ln, r in P if not c],
     "notes": "Every check extracts the functions under contract from /repo's working tree with libclang on each run, generates the obligations and discharges them; a failed obligation triggers a replay search that compiles the real sources. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
