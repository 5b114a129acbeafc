#!/usr/bin/env python3
"""claim.py ID "technique" "note": move a property to the claims."""
import json, sys, pathlib
p = pathlib.Path(__file__).parent / "claims.json"
c = json.loads(p.read_text())
pid, technique, note = sys.argv[1:4]
c["claims"][pid] = {"technique": technique, "level": "exploration", "note": note}
c["claims"] = dict(sorted(c["claims"].items()))
c["not_applicable"].pop(pid, None)
p.write_text(json.dumps(c, indent=1) + "\n")
