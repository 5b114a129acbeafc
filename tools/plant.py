"""Plant bugs: python3 tools/plant.py FILE.py [ID…] [--check] [--keep]

FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(path, old, new)],
demo=<python>)].  For each one: edit a scratch copy of /repo, require the stable
tests to pass and the demonstration to fail there and to pass on /repo, then
(over)write seeded/<id>/ and run this property's check against the copy.
`python3 tools/plant.py --seeded [ID…]` runs the checks against kept ones."""

import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import runpy
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent.parent
SEEDED = HERE / "seeded"
PY = "/opt/venv/bin/python"
KIT = HERE / "tools" / "kit.py"
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, cwd=None, timeout=900, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=os.environ | env)


def scratch(name):
    copy = pathlib.Path(tempfile.mkdtemp(prefix=f"plant-{name}-"))
    sh(f"cp -a /repo/. {copy}/")
    return copy


def stable(copy, limit=300):
    out = copy.parent / f"{copy.name}.xml"
    sh(f"{PY} -m pytest -q -p no:cacheprovider --no-cov --timeout={limit} --timeout-method=thread --junitxml={out} tests", cwd=copy, PYTHONPATH=f"{copy}/src", PYTHONDONTWRITEBYTECODE="1")
    import xml.etree.ElementTree as ET

    passed = set()
    for case in ET.parse(out).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in case):
            passed.add((case.get("classname"), case.get("name")))
    out.unlink()
    return passed


def names(passed):
    return {f"{c}::{n}" for c, n in passed}


_BASE = None


def missing(copy, limit=300):
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = names(stable(copy, limit))
    norm = lambda s: s.replace("/", ".").replace(".py", "").replace("::", ".")
    have = {norm(x) for x in got}
    return [w for w in want if norm(w) not in have]


def demo(folder, repo):
    return sh(f"bash {folder}/demo.sh", cwd=repo, timeout=300)


def judge(prop, copy, tier="quick", jobs=8):
    run = sh(f"{sys.executable} check.py {prop} --tier {tier} --jobs {jobs}", cwd=HERE, VERIF_REPO=str(copy), VERIF_EVIDENCE="/tmp/plant-evidence", timeout=1000)
    lines = run.stdout.strip().splitlines()
    return run.returncode, [l[:150] for l in lines[-3:]]


def plant(bug, check):
    copy = scratch(bug["id"])
    try:
        for path, old, new in bug["edits"]:
            file = copy / path
            text = file.read_text()
            if text.count(old) != 1:
                return f"{bug['id']}: edit matches {text.count(old)} times in {path}"
            file.write_text(text.replace(old, new))
        diff = sh("git diff", cwd=copy).stdout
        folder = SEEDED / bug["id"]
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant-demo-"))
        (tmp / "demo.sh").write_text(DEMO)
        (tmp / "demo.py").write_text("from kit import *\n\n" + bug["demo"].strip("\n") + "\n\n\nrun(main)\n")
        shutil.copy(KIT, tmp / "kit.py")
        good, bad = demo(tmp, "/repo"), demo(tmp, copy)
        lost = missing(copy)
        report = [f"{bug['id']} [{bug['property']}]: lost={len(lost)} {lost[:3]} demo clean={good.returncode} patched={bad.returncode}"]
        if good.returncode:
            report.append(good.stdout[-400:] + good.stderr[-600:])
        if bad.returncode:
            report.append("  " + (bad.stdout.strip().splitlines() or bad.stderr.strip().splitlines() or ["?"])[-1][:200])
        if not lost and good.returncode == 0 and bad.returncode not in (0,):
            folder.mkdir(parents=True, exist_ok=True)
            for f in ("demo.sh", "demo.py", "kit.py"):
                shutil.copy(tmp / f, folder / f)
            (folder / "patch.diff").write_text(diff)
            meta = {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}
            (folder / "meta.json").write_text(json.dumps(meta, indent=1) + "\n")
        else:
            report.append("  NOT KEPT")
        shutil.rmtree(tmp)
        if check:
            report.append(f"  check {bug['property']}: {judge(bug['property'], copy)}")
        return "\n".join(report)
    finally:
        shutil.rmtree(copy)


def note(name, tier, code, lines):
    """Keep what the check said, for DESIGN.md."""
    path = HERE / "tools" / "catches.json"
    known = json.loads(path.read_text()) if path.exists() else {}
    found = [l.rsplit("/", 1)[-1].removesuffix(".json") for l in lines if l.startswith("VIOLATION")]
    sig = "-".join(found[0].split("-")[1:-1]) if found else ""
    known.setdefault(name, {})[tier] = f"yes ({sig})" if code == 1 else "no" if code == 0 else f"exit {code}"
    path.write_text(json.dumps(dict(sorted(known.items())), indent=1) + "\n")


def seeded(ids, tier, all_props=False):
    for folder in sorted(SEEDED.iterdir()):
        if ids and folder.name not in ids:
            continue
        meta = json.loads((folder / "meta.json").read_text())
        copy = scratch(folder.name)
        applied = sh(f"git apply {folder}/patch.diff", cwd=copy)
        if applied.returncode:
            print(folder.name, "DOES NOT APPLY", applied.stderr[:200])
        else:
            code, lines = judge(meta["property"], copy, tier)
            note(folder.name, tier, code, lines)
            print(f"{folder.name:28} {meta['property']} {'CAUGHT' if code == 1 else f'missed ({code})'} {lines[-1] if lines else ''}", flush=True)
        shutil.rmtree(copy)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--seeded" in sys.argv:
        seeded(args, "thorough" if "--thorough" in sys.argv else "quick")
    else:
        bugs = runpy.run_path(args[0])["BUGS"]
        for bug in bugs:
            if not args[1:] or bug["id"] in args[1:]:
                print(plant(bug, "--check" in sys.argv), flush=True)
