"""Append a fixed entry: fx.py ID PROP HASH TEXT."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
i, prop, h, text = sys.argv[1:5]
d.append({"id": i, "property": prop, "status": "fixed", "what": f"fixed: property={prop} {h} {text}"})
open(p, "w").write(json.dumps(d, indent=1) + "\n")
