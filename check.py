#!/opt/venv/bin/python
"""python3 check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] ...

Exit 0: the property held on everything explored.
Exit 1: "VIOLATION property=<id> replay=<path>" was printed.
Exit 2: the machinery itself failed; nothing is claimed.
"""
import os
import sys

PY = "/opt/venv/bin/python"


def _reexec():
    want = {"PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8", "PYTHONWARNINGS": "ignore"}
    seed = os.environ.get("VERIF_SEED", "1")
    hashseed = os.environ.get("VERIF_HASHSEED")
    if "--replay" in sys.argv:
        import json

        path = sys.argv[sys.argv.index("--replay") + 1]
        hashseed = hashseed or json.load(open(path)).get("hashseed")
    want["PYTHONHASHSEED"] = hashseed or str(int(seed) % 4096 if seed.isdigit() else 0)
    same = all(os.environ.get(k) == v for k, v in want.items())
    if same and os.environ.get("VERIF_REEXEC") == "1":
        return
    env = {**os.environ, **want, "VERIF_REEXEC": "1"}
    for key in ("PYTHONPATH", "PYTHONHOME", "KUBECONFIG"):
        env.pop(key, None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__), *sys.argv[1:]], env)


if __name__ == "__main__":
    _reexec()

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(2500)


def main() -> int:
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?", default="")
    parser.add_argument("--selftest", action="store_true")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    parser.add_argument("--index", type=int)
    parser.add_argument("--count", type=int)
    parser.add_argument("--jobs", type=int)
    parser.add_argument("--wall", type=float)
    parser.add_argument("--verbose", action="store_true")
    args = parser.parse_args()
    prop_id = args.property.upper()

    from sim import boot

    boot.load()
    boot.reset()
    from sim import runner

    if args.selftest:
        import pathlib

        names = sorted(p.stem for p in pathlib.Path(runner.VERIF, "sim/props").glob("c*.py"))
        for name in names:
            runner.load_prop(name)
        print(f"ready: {' '.join(names)}")
        return 0

    if args.replay:
        out, lines = runner.replay_file(args.replay)
        for line in lines:
            print(line)
        print(f"result={out.kind} sig={out.sig} digest={out.digest}")
        if out.msg:
            print(out.msg)
        if out.kind == "violation":
            known = runner.match_known(prop_id, out.sig)
            if not known:
                print(f"VIOLATION property={prop_id} replay={args.replay}")
                return 1
            print(f"KNOWN-FINDING: property={prop_id} {known['what']}")
            return 0
        return 0 if out.kind in ("ok", "discard") else 2

    if args.index is not None:
        from sim.core import Source

        out = runner.execute(
            runner.load_prop(prop_id),
            Source(seed=runner.scenario_seed(args.seed, prop_id, args.index)),
            args.tier,
        )
        for line in out.ctx.lines:
            print(line)
        print(f"result={out.kind} sig={out.sig} digest={out.digest}\n{out.msg}")
        return {"ok": 0, "discard": 0, "violation": 1}.get(out.kind, 2)

    result = runner.run_search(
        prop_id, args.tier, args.seed, args.count, args.jobs, args.wall
    )
    if result["violation"]:
        path = runner.write_replay(result)
        runner.write_evidence(result, 1)
        v = result["violation"]
        print(f"sig={v['sig']} index={v['index']} shrink_runs={v['shrink_runs']}")
        print((v["msg"] or "")[:4000])
        print(f"VIOLATION property={prop_id} replay={os.path.relpath(path, runner.VERIF)}")
        return 1
    if result["harness"]:
        h = result["harness"]
        print(f"HARNESS-ERROR property={prop_id} {h['sig']} index={h['index']}\n{h['msg']}")
        return 2
    runner.write_evidence(result, 0)
    hit = {kid for s in result["summaries"] for kid in s["known"]}
    for finding in runner.load_known():
        if finding["id"] in hit:
            print(f"KNOWN-FINDING: property={prop_id} {finding['what']}")
    runs = sum(s["runs"] for s in result["summaries"])
    if runs == 0:
        print(f"HARNESS-ERROR property={prop_id} nothing explored")
        return 2
    if result["mismatches"]:
        print(f"WARNING nondeterministic scenarios: {result['mismatches']}")
    print(
        f"OK property={prop_id} tier={args.tier} seed={args.seed} runs={runs} "
        f"wall={result['wall']:.1f}s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
