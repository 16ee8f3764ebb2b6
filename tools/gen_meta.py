"""writes properties.jsonl and MANIFEST.json out of one table (run by hand when the table changes)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, T = "marEx/detect.py", "marEx/track.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))


from table import fill, NOT_APPLICABLE  # noqa: E402

fill(prop, D, T)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")

checks = []
for p in P:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % p["id"],
        "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % p["id"],
        "technique": "symbolic execution of the real code with an SMT solver (z3); counterexamples replayed on the unpatched package",
        "level": "model_checking",
        "level_note": p["note"],
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python run.py --selftest",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "Every check re-imports /repo's working tree, executes it on symbolic inputs and discharges the assertions with z3. No hooks are needed in /repo.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
