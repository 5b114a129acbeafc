"""python -B tools/mutrun.py SCALE PROP...: a share of the quick scenarios of each, in this process; one line."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(2500)


def main():
    from sim import boot

    boot.load()
    boot.reset()
    from sim import core, runner

    scale, props = float(sys.argv[1]), sys.argv[2:]
    odd = []
    for name in props:
        prop = runner.load_prop(name)
        harness = 0
        total = max(40, int(prop.COUNTS["quick"] * scale))
        for index in [*range(-len(getattr(prop, "FINDINGS", ())), 0), *range(total)]:
            source = core.Source(replay={"finding": [-index]}) if index < 0 else core.Source(seed=runner.scenario_seed(1, name, index))
            out = runner.execute(prop, source, "quick")
            if out.kind == "violation" and not runner.match_known(name, out.sig):
                print(f"caught {name} {out.sig} {index}")
                return
            if out.kind == "harness":
                harness += 1
                if harness == 1:
                    odd.append(f"{name} harness {out.sig} {index} {str(out.msg).strip().splitlines()[-1][:150]}")
                if harness > 10:
                    break
    print(f"survived {odd}")


main()
