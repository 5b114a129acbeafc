"""C01: steps run only on Ok dependencies and see exactly their values."""

from __future__ import annotations

import json

from ..cluster import Plan, SimApi
from ..core import Ctx, Discard, Violation
from ..world import Options, World, interpret, moods, run_pass, same

PROP = "C01"
LEVEL = "exploration"
COUNTS = {"quick": 1600, "thorough": 30000}
RULE = (
    "One scenario is a seeded Workflow (1-8 top level steps, nested sub-workflows, ref/"
    "refSwitch/forEach/skipIf, ValueFunctions and ResourceFunctions, failing expressions), a "
    "trigger, cluster contents and one schedule of API latencies; the pass runs for real on "
    "virtual time and is compared with a reference interpreter of the generator's AST. "
    "Non-trivial: at least one step depends on another one, or is skipped, switched or iterated."
)
STATE_MEASURE = "distinct (step shape, outcome class, dependency classes) combinations"
REAL = ["koreo.workflow.*", "koreo.value_function.*", "koreo.resource_function.*", "koreo.cel.*",
        "koreo.cache", "celpy", "kr8s request building and object classes"]  # fmt: skip
STUB = ["API server and transport (sim.cluster)", "event loop selector, clock"]
ASSUMPTIONS = [
    "celpy evaluates the generated expression subset as CEL defines it (cross-checked by the interpreter)",
    "Logic evaluation is observed through a side-effect-free CEL function registered by the harness",
]


def scenario(ctx: Ctx):
    opts = moods(ctx.stream("mood"), Options(max_steps=8))
    world = World(ctx, opts).build()
    ref, expected, initial = interpret(world, opts, ctx.stream("cluster"))
    if any(n > 1 for n in ref.keys.values()):
        raise Discard("two evaluations share one object")
    log_world(ctx, world, initial)
    cluster = world.cluster.clone(initial)
    workflow = ctx.run(world.prepare)
    api = SimApi(ctx, cluster, latency_policy(ctx.stream("sched")))
    observed = ctx.run(lambda: run_pass(ctx, workflow, world.trigger, api))
    coverage(ctx, world, expected)
    compare(ctx, world, ref, expected, observed)


def log_world(ctx, world, initial):
    for line in world.describe():
        ctx.log(line)
    ctx.log(f"trigger {json.dumps(world.trigger, sort_keys=True)}")
    for key, obj in initial.items():
        ctx.log(f"object {key} {json.dumps(obj, sort_keys=True)}")


def latency_policy(ch):
    def policy(call):
        kind = ch.below(4)
        if kind == 0:
            return Plan()
        if kind == 1:
            return Plan(turns=ch.int(1, 6))
        return Plan(before=ch.int(0, 20) * 0.01, after=ch.int(0, 20) * 0.01)

    return policy


def coverage(ctx, world, expected):
    for step in world.top.steps:
        out = expected.outs[step.label]
        shape = (
            f"{'sw' if step.switch else step.ref.kind[0]}"
            f"{'F' if step.for_each else ''}{'S' if step.skip_if else ''}"
        )
        deps = "".join(sorted({expected.outs[d].cls[0] for d in step.deps()}))
        ctx.state(f"{shape}:{out.cls}:{deps}:{len(step.deps())}")
        if step.deps() or step.skip_if or step.switch or step.for_each:
            ctx.nontrivial = True
        ctx.probe(f"outcome:{out.cls}")
        if out.cls == "ok" and step.deps():
            ctx.probe("ok-step-with-dependencies")


def compare(ctx, world, ref, expected, obs):
    # conditions: per step outcome classes, in order
    if obs.conditions != expected.conditions:
        raise Violation(
            "step-outcome", f"conditions {obs.conditions}, expected {expected.conditions}"
        )
    if obs.cls != expected.overall.cls:
        raise Violation("overall-outcome", f"{obs.cls} ({obs.message}), expected {expected.overall}")
    if obs.cls == "ok" and not same(obs.value, expected.overall.value):
        raise Violation("overall-value", f"{obs.value}, expected {expected.overall.value}")
    if obs.cls == "retry" and obs.delay != expected.overall.delay:
        raise Violation("overall-delay", f"{obs.delay}, expected {expected.overall.delay}")
    # values
    if not same(obs.state, expected.state):
        raise Violation("state", f"{obs.state}\nexpected {expected.state}")
    if set(obs.state_errors) != expected.state_errors:
        raise Violation("state-errors", f"{obs.state_errors}, expected {expected.state_errors}")
    # every Logic evaluation, with exactly these inputs
    compare_evals(ref.evals, obs.evals)
    # requests
    want = sorted(f"GET {k}" for k in ref.gets) + sorted(f"{m} {k}" for m, k in ref.mutations)
    got = sorted(
        f"GET {(c.version, c.plural, c.namespace, c.name)}" for c in obs.api.calls if c.method == "GET"
    ) + sorted(
        f"{c.method} {(c.version, c.plural, c.namespace, c.name)}"
        for c in obs.api.calls
        if c.mutating
    )
    extra = set(got) - set(want)
    missing = set(want) - set(got)
    if extra:
        raise Violation("request-unexpected", f"{sorted(extra)}")
    if missing:
        raise Violation("request-missing", f"{sorted(missing)}")


def compare_evals(want, got):
    rest = list(want)
    seen: list = []
    for label, value in got:
        for i, (wl, wv) in enumerate(rest):
            if wl == label and same(wv, value):
                seen.append(rest.pop(i))
                break
        else:
            if any(wl == label and same(wv, value) for wl, wv in seen):
                continue  # evaluated again with the same inputs
            expected = [v for l, v in want if l == label]
            sig = "logic-wrong-inputs" if expected else "logic-ran"
            raise Violation(
                sig, f"{label} evaluated with {json.dumps(value)}\nexpected {json.dumps(expected)[:1500]}"
            )
    if rest:
        raise Violation("logic-not-evaluated", f"{rest[0][0]} with {json.dumps(rest[0][1])}")
