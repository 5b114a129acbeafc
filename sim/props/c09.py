"""C09: a Workflow pass contains faults, stays truthful, and recovers."""

from __future__ import annotations

import asyncio
import copy
import json

from .. import boot
from ..cluster import ERROR_KINDS, Plan, SimApi
from ..core import Ctx, Discard, Violation
from ..world import Interp, Options, World, interpret, moods, needs, run_pass, same
from .c01 import coverage, log_world

PROP = "C09"
LEVEL = "exploration"
COUNTS = {"quick": 260, "thorough": 9000}
TRIALS = {"quick": 6, "thorough": 14}
MAX_PASSES = 60
STEP_TIMEOUT = 10
RULE = (
    "One scenario is a seeded Workflow and cluster.  A fault-free history of passes gives the "
    "reference; then 7 (thorough: 15) trials each run 1-3 faulty passes - one planned fault at a "
    "swept call index, one broken endpoint, one broken kind lookup, or a storm; exceptions, server "
    "errors, stalls and never-answered calls, before or after the server applied the request; the "
    "controller may also be cancelled or restarted mid-pass - followed by fault-free passes until "
    "quiescent.  Non-trivial: at least one fault was delivered."
)
STATE_MEASURE = "distinct (request method, fault, applied, step shape, dependents) combinations"
REAL = ["koreo.workflow.*", "koreo.resource_function.*", "koreo.value_function.*", "koreo.cel.*",
        "kind_lookup", "celpy", "kr8s request building and object classes"]  # fmt: skip
STUB = ["API server and transport (sim.cluster)", "event loop selector, clock"]
ASSUMPTIONS = [
    "steps of one pass manage different objects",
    "no other actor writes to the cluster while the faults are active",
]
KINDS = [*ERROR_KINDS, "cancelled", "group"]


def scenario(ctx: Ctx):
    opts = Options(
        rf_pct=80, vf_nonok_pct=8, fail_pct=3, foreach_pct=20, state_pct=80, sub_pct=15,
        lookup_pct=20, skip_pct=8, max_steps=6, readonly_pct=5, create_pct=95, post_pct=5, long_pct=0,
    )  # fmt: skip
    opts = moods(ctx.stream("mood"), opts)
    if ctx.stream("mood").chance(30):
        opts.lookup_pct = 70
    world = World(ctx, opts).build()
    ref, expected, initial = interpret(world, opts, ctx.stream("cluster"))
    if any(n > 1 for n in ref.keys.values()):
        raise Discard("two evaluations share one object")
    if not ref.keys:
        raise Discard("no API call to break")
    log_world(ctx, world, initial)
    coverage(ctx, world, expected)
    ctx.nontrivial = False

    # the run that never sees a fault
    workflow = ctx.run(world.prepare)
    cluster = world.cluster.clone(initial)
    reference = Healthy(ctx, world, workflow, cluster)
    final = reference.converge()
    if final is None:
        raise Discard("the fault-free run does not settle")

    for n in range(TRIALS[ctx.tier] + 1):
        trial(ctx, world, initial, reference, final, n)


class Healthy:
    def __init__(self, ctx, world, workflow, cluster):
        self.ctx, self.world, self.workflow, self.cluster = ctx, world, workflow, cluster
        self.calls_per_pass: list[int] = []
        self.lookups_per_pass: list[int] = []

    def converge(self):
        """Passes without faults until the cluster stops changing."""
        for _ in range(MAX_PASSES):
            api = SimApi(self.ctx, self.cluster)
            obs = self.ctx.run(
                lambda: run_pass(self.ctx, self.workflow, self.world.trigger, api)
            )
            self.ctx.evaluations += 1
            self.calls_per_pass.append(len(api.calls))
            self.lookups_per_pass.append(len(api.lookups))
            if not api.mutations():
                return obs
        return None


def normal(objects: dict) -> dict:
    """Cluster contents without what the server hands out."""
    out = {}
    for key, obj in objects.items():
        obj = copy.deepcopy(obj)
        for field in ("uid", "resourceVersion"):
            obj.get("metadata", {}).pop(field, None)
        out["/".join(map(str, key))] = obj
    return out


def summary(obs):
    return {
        "result": [obs.cls, obs.value, obs.delay, obs.message],
        "conditions": obs.full_conditions,
        "state": obs.state,
        "state_errors": obs.state_errors,
        "resource_ids": obs.resource_ids,
    }


class Faults:
    """The fault plan of one pass."""

    def __init__(self, ctx, ch, world, calls, lookups):
        self.ctx, self.ch = ctx, ch
        self.hit: list = []  # calls that failed for certain
        self.bad_kinds: set[str] = set()
        self.delivered = 0
        self.mode = ch.weighted(
            [("one", 10), ("endpoint", 3), ("storm", 4), ("lookup", 3 if lookups else 0), ("two", 3)]
        )
        self.index = {ch.below(max(1, calls))}
        if self.mode == "two":
            self.index.add(ch.below(max(1, calls)))
        self.plural = ch.pick(["widgets", "gadgets", "gizmos"])
        self.storm_pct = ch.pick([20, 50, 90])
        self.fault = self.draw_fault()
        self.lookup_fault = ch.pick(["value", "http500", "connect", "hang", "builtin_timeout", "slow"])
        self.lookup_index = ch.below(max(1, lookups))
        self.looked = 0
        self.latency = ch.below(3)

    def draw_fault(self):
        ch = self.ch
        kind = ch.weighted([("error", 10), ("hang", 4), ("slow", 2)])
        return (ch.pick(KINDS) if kind == "error" else kind), ch.bool()

    def policy(self, call):
        lat = {}
        if self.latency == 1:
            lat = {"turns": self.ch.int(0, 5)}
        elif self.latency == 2:
            lat = {"before": self.ch.int(0, 10) * 0.02, "turns": self.ch.int(0, 2)}
        strike = False
        fault, applied = self.fault
        if self.mode in ("one", "two"):
            strike = call.idx in self.index
        elif self.mode == "endpoint":
            strike = call.plural == self.plural
        elif self.mode == "storm":
            strike = self.ch.chance(self.storm_pct)
            if strike:
                fault, applied = self.draw_fault()
        if not strike:
            return Plan(**lat)
        self.hit.append(call)
        self.delivered += 1
        self.ctx.state(f"{call.method}:{fault}:{applied}:{self.mode}")
        if fault == "slow":
            self.ctx.fault(f"{call.method}:slow:{'after' if applied else 'before'}")
            return Plan(after=40.0) if applied else Plan(before=40.0)
        # a "not found" is an answer, not a failure, to these:
        if fault == "notfound" and call.method == "GET":
            fault = "http500"
        if fault == "http404" and call.method == "GET":
            fault = "http503"
        if fault == "http404" and call.method == "DELETE":
            fault = "http500"
        lat.pop("before", None)
        return Plan(fault=fault, applied=applied, **lat)

    def lookup(self, kind):
        n = self.looked
        self.looked += 1
        if self.mode != "lookup":
            return Plan(turns=self.ch.int(0, 2)) if self.latency else None
        if n != self.lookup_index:
            return Plan(turns=self.ch.int(0, 4))
        self.bad_kinds.add(kind)
        self.delivered += 1
        self.ctx.state(f"lookup:{self.lookup_fault}")
        if self.lookup_fault == "slow":
            self.ctx.fault("lookup:slow")
            return Plan(before=40.0)
        return Plan(turns=self.ch.int(0, 4), fault=self.lookup_fault)


def trial(ctx, world, initial, reference, final, n):
    ch = ctx.stream(f"trial{n}")
    boot.reset()
    workflow = ctx.run(world.prepare)
    cluster = world.cluster.clone(initial)
    delivered = 0
    for p in range(ch.weighted([(1, 6), (2, 3), (3, 1)])):
        known = min(p, len(reference.calls_per_pass) - 1)
        plan = Faults(
            ctx, ch, world, reference.calls_per_pass[known], reference.lookups_per_pass[known]
        )
        crash = ch.weighted([(None, 8), ("cancel", 1), ("restart", 1)])
        ctx.log(f"trial {n} faulty pass {p}: {plan.mode} {plan.fault} crash={crash}")
        api = SimApi(ctx, cluster, plan.policy)
        api.lookup_policy = plan.lookup
        before = cluster.snapshot()
        if crash:
            at = ch.below(30)
            ctx.run(lambda: crashed_pass(ctx, workflow, world, api, at))
            ctx.fault(f"controller:{crash}")
            if crash == "restart":
                boot.reset()
                workflow = ctx.run(world.prepare)
            continue
        began = ctx.clock.t
        obs = ctx.run(lambda: run_pass(ctx, workflow, world.trigger, api))
        ctx.evaluations += 1
        took = ctx.clock.t - began
        delivered += plan.delivered
        if took > STEP_TIMEOUT + 0.5:
            raise Violation("pass-too-long", f"{took:.3f}s with fault {plan.mode}:{plan.fault}")
        ref = Interp(world, before)
        expected = ref.workflow(world.top, world.trigger)
        truthful(ctx, world, ref, expected, obs, plan)

    # faults have stopped
    after = Healthy(ctx, world, workflow, cluster)
    obs = after.converge()
    if obs is None:
        raise Violation("no-convergence", f"still mutating after {MAX_PASSES} healthy passes")
    got, want = normal(cluster.objects), normal(reference.cluster.objects)
    if not same(got, want):
        diff = [k for k in sorted({*got, *want}) if not same(got.get(k), want.get(k))]
        raise Violation(
            "recovered-cluster",
            f"{diff[0]} is {json.dumps(got.get(diff[0]))}\nwithout faults "
            f"{json.dumps(want.get(diff[0]))}",
        )
    a, b = summary(obs), summary(final)
    for part in a:
        if not same(a[part], b[part]):
            raise Violation(f"recovered-result:{part}", f"{a[part]}\nwithout faults {b[part]}")
    ctx.probe("recovered")


async def crashed_pass(ctx, workflow, world, api, at):
    """The controller is cancelled after `at` turns of the loop."""
    task = asyncio.ensure_future(run_pass(ctx, workflow, world.trigger, api))
    for _ in range(at):
        if task.done():
            break
        await asyncio.sleep(0)
    task.cancel()
    try:
        await task
    except asyncio.CancelledError:
        pass


def truthful(ctx, world, ref, expected, obs, plan):
    failed = [p for c in plan.hit if (p := ref.key_paths.get(key_of(c)))]
    top = {s.label: s for s in world.top.steps}
    hit_steps = {p[0][1] for p in failed}
    blocked = set()
    for label in hit_steps:
        blocked |= needs(world.top.steps, label)
    unclear = bool(plan.bad_kinds)

    if failed and obs.cls == "ok":
        raise Violation("ok-despite-fault", f"{sorted(hit_steps)} failed, overall {obs.value}")
    if failed and obs.cls in ("skip", "depskip"):
        raise Violation("no-error-despite-fault", f"{sorted(hit_steps)} failed, overall {obs.cls}")

    # conditions
    by_type = {}
    for step in top.values():
        by_type.setdefault(step.condition, []).append(step)
    if not obs.conditions or obs.conditions[-1][0] != "Ready":
        raise Violation("overall-condition", f"{obs.conditions}")
    for ctype, reason in obs.conditions:
        if reason not in ("Ready", "Skip", "DepSkip", "Wait", "Failure"):
            raise Violation("condition-reason", f"{ctype} {reason}")
        if reason != "Ready":
            continue
        steps = by_type.get(ctype)
        if steps is None:
            if obs.cls != "ok":
                raise Violation(
                    "false-ready", f"{ctype}=Ready while the pass is {obs.cls}: {obs.full_conditions}"
                )
            continue
        if len(steps) > 1:  # whose it is cannot be told; one of them has to be fine
            if all(
                s.label in hit_steps or s.label in blocked or expected.outs[s.label].cls != "ok"
                for s in steps
            ):
                raise Violation("false-ready", f"{ctype} is Ready, none of its steps is")
            continue
        (step,) = steps
        if step.label in hit_steps:
            raise Violation("false-ready", f"{ctype} is Ready, a call of {step.label} failed")
        if step.label in blocked:
            raise Violation("false-ready", f"{ctype} is Ready, {step.label} needs {hit_steps}")
        if expected.outs[step.label].cls != "ok":
            raise Violation("false-ready", f"{ctype} is Ready, {expected.outs[step.label]}")
    for label in hit_steps:
        step = top[label]
        if len(by_type[step.condition]) > 1:
            continue
        reasons = [r for t, r in obs.conditions if t == step.condition]
        if any(r in ("Skip", "DepSkip") for r in reasons):
            raise Violation("fault-as-skip", f"{label} failed and reports {reasons}")

    # dependents never ran
    allowed = []
    for (label, value), path in zip(ref.evals, ref.eval_paths):
        allowed.append((label, value, blocked_path(world, failed, path)))
    for label, value in obs.evals:
        matches = [b for l, v, b in allowed if l == label and same(v, value)]
        if not matches:
            raise Violation("logic-ran", f"{label} with {json.dumps(value)}")
        if all(matches):
            raise Violation("dependent-ran", f"{label} with {json.dumps(value)}")
    for call in obs.api.calls:
        path = ref.key_paths.get(key_of(call))
        if path is None:
            raise Violation("request-unexpected", f"{call}")
        if blocked_path(world, failed, path):
            raise Violation("dependent-ran", f"{call}")

    # state comes from succeeded steps only
    for key, value in (obs.state or {}).items():
        for label, published in ref.published:
            if label in hit_steps or label in blocked:
                continue
            if key in published and same(published[key], value):
                break
        else:
            raise Violation("state-from-failed-step", f"{key} = {value}")

    if not plan.delivered:
        # nothing was broken after all: then everything is as predicted
        if obs.cls != expected.overall.cls or obs.conditions != expected.conditions:
            raise Violation("unfaulted-pass", f"{obs.conditions} expected {expected.conditions}")
    if not failed and not unclear and plan.delivered:
        ctx.probe("fault-outside-reference")
    if unclear and obs.cls == "ok" and plan.lookup_fault not in ("builtin_timeout",):
        raise Violation("ok-despite-lookup-fault", f"{plan.lookup_fault}")
    if failed:
        ctx.probe("faulted-passes")
        if blocked:
            ctx.probe("faulted-with-dependents")


def key_of(call):
    return (call.version, call.plural, call.namespace, call.name)


def blocked_path(world, failed, path) -> bool:
    """Does `path` lie in a step that needs a failed one?"""
    flows = {w.name: w for w in world.workflows}
    for bad in failed:
        for d in range(min(len(bad), len(path))):
            if bad[d] == path[d]:
                continue
            if bad[d][0] == path[d][0] and path[d][1] in needs(
                flows[bad[d][0]].steps, bad[d][1]
            ):
                return True
            break
    return False
