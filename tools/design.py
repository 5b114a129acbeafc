"""DESIGN.md from tools/design.md, known_findings.json and seeded/*."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    text = open(f"{ROOT}/tools/design.md").read()
    found = json.load(open(f"{ROOT}/known_findings.json"))
    found = found if isinstance(found, list) else found["findings"]
    fixed = [f for f in found if f["status"] != "known"]
    rows = ["| | property | commit and defect |", "|---|---|---|"]
    for f in fixed:
        what = f["what"].split(" ", 2)[2] if f["what"].startswith("fixed: ") else f["what"]
        rows.append(f"| {f['id']} | {f['property']} | {what} |")
    text = text.replace("@@FIXED@@", "\n".join(rows))
    catches = json.load(open(f"{ROOT}/tools/catches.json"))
    rows = ["| change | property | what it breaks | needs | its check |", "|---|---|---|---|---|"]
    for path in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        meta = json.load(open(path))
        name = os.path.basename(os.path.dirname(path))
        caught = "; ".join(f"{k}: {v}" for k, v in catches.get(name, {}).items())
        rows.append(f"| {name} | {meta['property']} | {meta['what_it_breaks']} | {meta['needs']} | {caught} |")
    text = text.replace("@@SEEDED@@", "\n".join(rows))
    open(f"{ROOT}/DESIGN.md", "w").write(text)


main()
