"""Regenerate /verif/MANIFEST.json from the list of built checks."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
LEVELS = json.loads((ROOT / "tools/claims.json").read_text())
checks = []
for pid, c in sorted(LEVELS["claims"].items()):
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} --tier quick",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
doc = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "hooks": {"guard": "none", "enable": "no hooks were added to /repo; every seam used already existed", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(LEVELS["not_applicable"].items())],
    "notes": LEVELS["notes"],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
