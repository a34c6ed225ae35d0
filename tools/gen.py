#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/coordinax/_src/"
T = ("Unit tests and doctests evaluate one or two hand-picked vectors per function (mostly kpc, "
     "scalars or [1,2,3]-like values, first octant) and compare with stored numbers; ")

P = []


def prop(id, title, statement, over, quant, why, files, mech, note, observe=None):
    P.append(dict(
        row={"id": id, "title": title, "statement": statement,
             "quantifier": {"over": over, "text": quant}, "why_tests_cant": T + why,
             "anchors": {"files": [f if f.startswith("src/") else S + f for f in files],
                         "mechanism": [{"name": a, "where": b} for a, b in mech],
                         "observe_at": observe or [], "hook_needed": None}},
        note=note))


spec = importlib.util.spec_from_file_location("specs", os.path.join(V, "tools/specs.py"))
m = importlib.util.module_from_spec(spec)
m.prop, m.S = prop, S
spec.loader.exec_module(m)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["row"]["title"]) <= 80, p["row"]["title"]
        assert p["row"]["statement"].count(". ") <= 2, p["row"]["id"]
        f.write(json.dumps(p["row"]) + "\n")
checks, na = [], []
for p in P:
    i = p["row"]["id"]
    if os.path.exists(os.path.join(V, f"harness/props/{i.lower()}.py")):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 harness/run.py {i} --tier quick",
            "thorough_cmd": f"python3 harness/run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing (Hypothesis): " + p["note"][0],
            "level": "exploration",
            "level_note": p["note"][1] + " Sampled, not exhaustive; trusts NumPy/Astropy unit "
            "tables and the independent reference in harness/ref.py."})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1,
           "setup_cmd": "python3 harness/setup.py",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check drives the public API of /repo/src."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not yet")
