"""python3 tools/finding.py PROP HASH 'what failed' : record a fix commit."""
import json, pathlib, sys
p = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
key = next(k for k, v in d.items() if isinstance(v, list))
n = len(d[key]) + 1
prop, h, what = sys.argv[1:4]
d[key].append({"id": f"F{n}", "property": prop, "status": "fixed", "sig": "-", "what": f"fixed: property={prop} {h} {what}"})
p.write_text(json.dumps(d, indent=1) + "\n")
