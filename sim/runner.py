"""Seeded search over scenarios, shrinking, replay files and evidence."""

from __future__ import annotations

import gc
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pathlib
import signal
import subprocess
import sys
import traceback

from . import boot, core
from .core import Ctx, Discard, HarnessError, Source, Violation, WallHang, wall

VERIF = pathlib.Path(__file__).resolve().parent.parent
SCENARIO_WALL = 40  # seconds of real time before a scenario counts as hung
SRC_PREFIX = str(boot.SRC) + os.sep
SIM_PREFIX = str(VERIF / "sim") + os.sep


class Outcome:
    __slots__ = ("kind", "sig", "msg", "ctx", "digest")

    def __init__(self, kind, sig, msg, ctx):
        self.kind = kind  # ok | violation | discard | harness
        self.sig = sig
        self.msg = msg
        self.ctx = ctx
        self.digest = ctx.digest() if ctx else ""


class _Alarm:
    def __init__(self, seconds):
        self.seconds = seconds
        self.fired = False

    def __enter__(self):
        def on_alarm(signum, frame):
            self.fired = True
            raise WallHang()

        self.old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 1.0)
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def _classify_exception(err: BaseException) -> tuple[str, str, str]:
    tb = traceback.extract_tb(err.__traceback__)
    text = "".join(traceback.format_exception(err))
    innermost = tb[-1].filename if tb else ""
    in_koreo = any(f.filename.startswith(SRC_PREFIX) for f in tb)
    if in_koreo and not innermost.startswith(SIM_PREFIX):
        return "violation", f"exception:{type(err).__name__}", text
    return "harness", f"harness:{type(err).__name__}", text


def execute(prop, source: Source, tier: str) -> Outcome:
    ctx = Ctx(source, tier)
    boot.reset()
    kind, sig, msg = "ok", None, None
    alarm = _Alarm(SCENARIO_WALL)
    try:
        with alarm:
            try:
                which = source.draw("finding", 1 + len(getattr(prop, "FINDINGS", ())))
                # 0, unless it is the scenario of a recorded finding
                (prop.FINDINGS[which - 1] if which else prop.scenario)(ctx)
            except Violation as err:
                kind, sig, msg = "violation", err.sig, err.msg
            except Discard:
                kind = "discard"
            except HarnessError as err:
                kind, sig, msg = "harness", "harness", str(err)
            except core.SimDeadlock:
                kind, sig = "violation", "deadlock"
                msg = "nothing runnable, no timer pending, operation unfinished"
            except core.SimNoQuiescence:
                kind, sig = "violation", "no-quiescence"
                msg = "step budget exhausted without reaching quiescence"
    except WallHang:
        kind, sig = "violation", "hang"
        msg = f"no return within {SCENARIO_WALL}s of real time"
    except RecursionError as err:
        kind, sig, msg = _classify_exception(err)
    except Exception as err:
        kind, sig, msg = _classify_exception(err)
    finally:
        core.set_clock(None)
    if alarm.fired:
        kind, sig = "violation", "hang"
        msg = f"no return within {SCENARIO_WALL}s of real time"
    if kind == "violation":
        ctx.log(f"VIOLATION {sig}")
    return Outcome(kind, sig, msg, ctx)


def scenario_seed(seed: int, prop_id: str, index: int) -> str:
    return f"{seed}/{prop_id}/{index}"


# --------------------------------------------------------------------------
# shrinking
# --------------------------------------------------------------------------


def _size(rec: dict) -> tuple:
    return (
        sum(len(v) for v in rec.values()),
        sum(sum(v) for v in rec.values()),
    )


def _trim(rec: dict) -> dict:
    out = {}
    for key, values in rec.items():
        values = list(values)
        while values and values[-1] == 0:
            values.pop()
        if values:
            out[key] = values
    return out


def shrink(prop, rec: dict, sig: str, tier: str, max_runs=600, max_wall=45.0):
    best = _trim(rec)
    runs = 0
    deadline = wall() + max_wall

    def attempt(candidate: dict) -> bool:
        nonlocal best, runs
        candidate = _trim(candidate)
        if _size(candidate) >= _size(best):
            return False
        if runs >= max_runs or wall() > deadline:
            raise TimeoutError
        runs += 1
        out = execute(prop, Source(replay=candidate), tier)
        if out.kind == "violation" and out.sig == sig:
            used = _trim(out.ctx.source.rec)
            best = used if _size(used) <= _size(candidate) else candidate
            return True
        return False

    try:
        changed = True
        while changed:
            changed = False
            for stream in sorted(best, key=lambda s: -len(best[s])):
                if stream in best and attempt({k: v for k, v in best.items() if k != stream}):
                    changed = True
            for stream in list(best):
                size = max(1, len(best.get(stream, ())) // 2)
                while size >= 1:
                    pos = 0
                    while pos < len(best.get(stream, ())):
                        values = best[stream]
                        cut = values[:pos] + values[pos + size :]
                        if attempt({**best, stream: cut}):
                            changed = True
                            continue
                        zero = values[:pos] + [0] * len(values[pos : pos + size]) + values[pos + size :]
                        if any(values[pos : pos + size]) and attempt({**best, stream: zero}):
                            changed = True
                        pos += size
                    size //= 2
                pos = 0
                while pos < len(best.get(stream, ())):
                    values = best[stream]
                    v = values[pos]
                    for lower in (v // 2, v - 1):
                        if 0 < lower < v and attempt(
                            {**best, stream: values[:pos] + [lower] + values[pos + 1 :]}
                        ):
                            changed = True
                            break
                    pos += 1
    except TimeoutError:
        pass
    return best, runs


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------


def load_prop(prop_id: str):
    return importlib.import_module(f"sim.props.{prop_id.lower()}")


def load_known() -> list[dict]:
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return json.loads(path.read_text())["findings"]


def match_known(prop_id: str, sig: str) -> dict | None:
    for finding in load_known():
        if (
            finding.get("status") == "known"
            and finding.get("property") == prop_id
            and finding.get("sig") == sig
        ):
            return finding
    return None


def _worker(conn, prop_id, tier, seed, indices, deadline):
    prop = load_prop(prop_id)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    summary = {
        "runs": 0, "evaluations": 0, "discarded": 0, "sim_time": 0.0, "faults": {},
        "probes": {}, "digests": set(), "states": set(), "samples": [], "known": {},
        "indexed": {}, "stopped_early": False, "harness": [],
    }  # fmt: skip
    done: list[int] = []
    for index in indices:
        if wall() > deadline:
            summary["stopped_early"] = True
            break
        if len(done) % 150 == 149:
            gc.collect()
        if index < 0:
            source = Source(replay={"finding": [-index]})
        else:
            source = Source(seed=scenario_seed(seed, prop_id, index))
        out = execute(prop, source, tier)
        done.append(index)
        ctx = out.ctx
        summary["runs"] += 1
        summary["evaluations"] += max(1, ctx.evaluations)
        summary["sim_time"] += ctx.clock.t - ctx.clock.start
        for key, value in ctx.faults.items():
            summary["faults"][key] = summary["faults"].get(key, 0) + value
        for key, value in ctx.probes.items():
            summary["probes"][key] = summary["probes"].get(key, 0) + value
        if 0 <= index < 24:
            summary["indexed"][index] = out.digest
        if out.kind == "discard":
            summary["discarded"] += 1
            continue
        if out.kind == "harness":
            # keep searching: a violation found elsewhere is the better answer
            summary["harness"].append({"index": index, "sig": out.sig, "msg": out.msg})
            if len(summary["harness"]) > 20:
                break
            continue
        if out.kind == "violation":
            known = match_known(prop_id, out.sig)
            if known:
                entry = summary["known"].setdefault(known["id"], [0, known["what"]])
                entry[0] += 1
                continue
            best, runs = shrink(prop, source.rec, out.sig, tier)
            conn.send(
                (
                    "violation",
                    {
                        "index": index, "sig": out.sig, "msg": out.msg,
                        "choices": best, "original": source.rec,
                        "shrink_runs": runs, "prefix": [i for i in done[:-1] if i >= 0],
                    },
                )
            )  # fmt: skip
            conn.close()
            return
        if ctx.nontrivial:
            summary["digests"].add(out.digest)
            if len(summary["samples"]) < 2 and len(ctx.lines) > 3:
                summary["samples"].append(
                    {"index": index, "trace": [l[:300] for l in ctx.lines[:60]]}
                )
        summary["states"] |= ctx.states
    conn.send(("done", summary))
    conn.close()


def _spawn(mp, prop_id, tier, seed, indices, deadline):
    parent, child = mp.Pipe(duplex=False)
    proc = mp.Process(
        target=_worker, args=(child, prop_id, tier, seed, indices, deadline)
    )
    proc.start()
    child.close()
    return proc, parent


def run_search(prop_id: str, tier: str, seed: int, count=None, jobs=None, wall_cap=None):
    started = wall()
    prop = load_prop(prop_id)
    jobs = jobs or min(8, os.cpu_count() or 1)
    total = count or prop.COUNTS[tier]
    cap = wall_cap or (240 if tier == "quick" else 780)
    deadline = started + cap
    mp = multiprocessing.get_context("fork")
    boot.reset()

    procs = []
    for j in range(jobs):
        indices = list(range(j, total, jobs))
        # the scenarios of recorded findings, on top of the search
        indices[:0] = [-1 - k for k in range(len(getattr(prop, "FINDINGS", ()))) if k % jobs == j]
        if indices:
            procs.append(_spawn(mp, prop_id, tier, seed, indices, deadline))

    summaries, violation, harness = [], None, None
    pending = {conn: proc for proc, conn in procs}
    # hang alarm + shrink budget + slack
    hard = deadline + SCENARIO_WALL + 120
    while pending:
        ready = multiprocessing.connection.wait(list(pending), timeout=1.0)
        if not ready and wall() > hard:
            harness = {"sig": "harness:timeout", "msg": "worker did not answer", "index": None}
            break
        for conn in ready:
            proc = pending.pop(conn)
            try:
                kind, data = conn.recv()
            except EOFError:
                proc.join()
                harness = {
                    "sig": "harness:worker-died",
                    "msg": f"worker exit code {proc.exitcode}",
                    "index": None,
                }
                continue
            if kind == "done":
                summaries.append(data)
                if data["harness"] and harness is None:
                    harness = data["harness"][0]
            elif kind == "violation":
                if violation is None or data["index"] < violation["index"]:
                    violation = data
            else:
                harness = harness or data
        if violation:
            break
    for proc in pending.values():
        proc.kill()
    for proc, conn in procs:
        proc.join()
        conn.close()

    # determinism: the first scenarios again, other worker count and order
    mismatches = []
    rechecked = 0
    if not violation and not harness:
        merged = {}
        for s in summaries:
            merged.update(s["indexed"])
        order = sorted(merged, reverse=True)
        halves = [order[0::2], order[1::2]]
        again = [
            _spawn(mp, prop_id, tier, seed, half, wall() + 120) for half in halves if half
        ]
        for proc, conn in again:
            try:
                kind, data = conn.recv()
                if kind == "done":
                    for index, digest in data["indexed"].items():
                        rechecked += 1
                        if merged[index] != digest:
                            mismatches.append(index)
            except EOFError:
                pass
            proc.join()
            conn.close()
    return {
        "prop": prop, "prop_id": prop_id, "tier": tier, "seed": seed, "jobs": jobs,
        "summaries": summaries, "violation": violation, "harness": harness,
        "mismatches": sorted(mismatches), "rechecked": rechecked,
        "wall": wall() - started, "total": total,
    }  # fmt: skip


# --------------------------------------------------------------------------
# replay
# --------------------------------------------------------------------------


def write_replay(result) -> pathlib.Path:
    v = result["violation"]
    prop = result["prop"]
    prop_id, tier, seed = result["prop_id"], result["tier"], result["seed"]
    out_dir = VERIF / "replays"
    out_dir.mkdir(exist_ok=True)

    def compose(choices, prefix):
        tag = hashlib.sha256(
            json.dumps([choices, prefix], sort_keys=True).encode()
        ).hexdigest()[:8]
        path = out_dir / f"{prop_id}-{v['sig'].split(':')[0].replace('/', '_')[:40]}-{tag}.json"
        doc = {
            "property": prop_id, "sig": v["sig"], "message": v["msg"], "tier": tier,
            "seed": seed, "index": v["index"],
            "hashseed": os.environ.get("PYTHONHASHSEED"),
            "prefix": prefix, "choices": choices, "shrink_runs": v["shrink_runs"],
            "how": f"python3 check.py {prop_id} --replay <this file>",
        }  # fmt: skip
        path.write_text(json.dumps(doc, indent=1))
        return path

    def reproduces(path):
        proc = subprocess.run(
            [sys.executable, str(VERIF / "check.py"), prop_id, "--replay", str(path)],
            capture_output=True, text=True, cwd=VERIF, timeout=600,
        )  # fmt: skip
        return proc.returncode == 1 and f"sig={v['sig']}" in proc.stdout

    for choices, prefix in (
        (v["choices"], []),
        (_trim(v["original"]), []),
        (_trim(v["original"]), v["prefix"][-40:]),
        (_trim(v["original"]), v["prefix"]),
    ):
        path = compose(choices, prefix)
        if reproduces(path):
            doc = json.loads(path.read_text())
            doc["reproduced_in_fresh_process"] = True
            # the readable, minimised schedule and fault trace
            _, trace = replay_file(path)
            doc["trace"] = trace
            path.write_text(json.dumps(doc, indent=1))
            return path
        path.unlink()
    path = compose(_trim(v["original"]), v["prefix"])
    doc = json.loads(path.read_text())
    doc["reproduced_in_fresh_process"] = False
    path.write_text(json.dumps(doc, indent=1))
    return path


def replay_file(path):
    doc = json.loads(pathlib.Path(path).read_text())
    prop = load_prop(doc["property"])
    for index in doc.get("prefix", ()):
        execute(
            prop,
            Source(seed=scenario_seed(doc["seed"], doc["property"], index)),
            doc["tier"],
        )
    out = execute(prop, Source(replay=doc["choices"]), doc["tier"])
    return out, out.ctx.lines


# --------------------------------------------------------------------------
# evidence
# --------------------------------------------------------------------------


def _merge_counts(summaries, key):
    out: dict[str, int] = {}
    for s in summaries:
        for name, value in s[key].items():
            out[name] = out.get(name, 0) + value
    return dict(sorted(out.items()))


def write_evidence(result, violations: int):
    prop = result["prop"]
    summaries = result["summaries"]
    runs = sum(s["runs"] for s in summaries)
    digests, states = set(), set()
    for s in summaries:
        digests |= s["digests"]
        states |= s["states"]
    samples = [x for s in summaries for x in s["samples"]][:3]
    seconds = max(result["wall"], 1e-6)
    coverage = {
        "evaluations": sum(s["evaluations"] for s in summaries),
        "distinct_nontrivial": len(digests),
        "rule": prop.RULE,
        "samples": samples,
        "simulated_runs": runs,
        "runs_per_hour": int(runs * 3600 / seconds),
        "seeds_per_hour": int(runs * 3600 / seconds),
        "runs_requested": result["total"],
        "runs_discarded_outside_quantifier": sum(s["discarded"] for s in summaries),
        "stopped_early_by_wall_cap": any(s["stopped_early"] for s in summaries),
        "simulated_seconds": round(sum(s["sim_time"] for s in summaries), 1),
        "faults_fired": _merge_counts(summaries, "faults"),
        "probes_hit": _merge_counts(summaries, "probes"),
        "distinct_states": len(states),
        "distinct_states_measure": getattr(prop, "STATE_MEASURE", "scenario defined"),
        "real_components": prop.REAL,
        "stub_components": prop.STUB,
        "workers": result["jobs"],
        "determinism": {
            "scenarios_rerun_other_worker_count_and_order": result["rechecked"],
            "mismatching": result["mismatches"],
            "PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED"),
        },
    }
    known = {}
    for s in summaries:
        for kid, (n, what) in s["known"].items():
            known[kid] = known.get(kid, 0) + n
    if known:
        coverage["known_findings_hit"] = known
    doc = {
        "property": result["prop_id"],
        "tier": result["tier"],
        "seed": result["seed"],
        "level": prop.LEVEL,
        "coverage": coverage,
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(result["wall"], 2),
        "violations": violations,
    }
    out = VERIF / "evidence"
    out.mkdir(exist_ok=True)
    (out / f"{result['prop_id']}.json").write_text(json.dumps(doc, indent=1))
