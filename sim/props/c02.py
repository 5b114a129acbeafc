"""C02: a pass's result does not depend on step completion order."""

from __future__ import annotations

import json

from .. import boot
from ..cluster import Plan, SimApi, wire_json
from ..core import Ctx, Discard, Violation
from ..world import Options, World, interpret, moods, run_pass
from .c01 import compare, coverage, log_world

PROP = "C02"
LEVEL = "exploration"
COUNTS = {"quick": 1500, "thorough": 25000}
SCHEDULES = {"quick": 6, "thorough": 16}
RULE = (
    "One scenario is a seeded Workflow with ResourceFunctions (steps, forEach, sub-workflows), a "
    "trigger and cluster contents, run under 7 (thorough: 17) seeded schedules: zero latency, "
    "reversed completion, and random API/kind-lookup latencies and loop turns below the step "
    "time-out.  Every run is compared with the first one and with the reference interpreter. "
    "Non-trivial: at least two schedules completed their API calls in different orders."
)
STATE_MEASURE = "distinct API completion orders (per scenario)"
REAL = ["koreo.workflow.*", "koreo.resource_function.*", "koreo.value_function.*", "koreo.cel.*",
        "celpy", "kr8s request building and object classes"]  # fmt: skip
STUB = ["API server and transport (sim.cluster)", "event loop selector, clock"]
ASSUMPTIONS = [
    "steps of one pass manage different objects (two steps racing for one object are excluded)",
    "all API calls succeed and their latencies sum to less than the step time-out",
]


def scenario(ctx: Ctx):
    opts = Options(
        rf_pct=75, vf_nonok_pct=10, fail_pct=4, foreach_pct=30, state_pct=85,
        lookup_pct=20, skip_pct=10, max_steps=7,
    )  # fmt: skip
    opts = moods(ctx.stream("mood"), opts)
    world = World(ctx, opts).build()
    ref, expected, initial = interpret(world, opts, ctx.stream("cluster"))
    if any(n > 1 for n in ref.keys.values()):
        raise Discard("two evaluations share one object")
    log_world(ctx, world, initial)
    lookups = any(getattr(f, "lookup", False) for f in world.functions)
    coverage(ctx, world, expected)
    ctx.nontrivial = False
    workflow = None
    first = None
    orders = set()
    for n in range(SCHEDULES[ctx.tier] + 1):
        if workflow is None or lookups:
            boot.reset()
            workflow = ctx.run(world.prepare)
        ch = ctx.stream(f"sched{n}")
        mode = 0 if n == 0 else ch.int(1, 4)
        cluster = world.cluster.clone(initial)
        api = SimApi(ctx, cluster, policy(ch, mode))
        api.lookup_policy = lambda kind, ch=ch, mode=mode: (
            Plan(turns=ch.int(0, 3), before=ch.int(0, 10) * 0.02) if mode else None
        )
        order: list[str] = []
        api.on_effect = lambda call, order=order: order.append(f"{call.method}:{call.plural}:{call.name}")
        ctx.log(f"schedule {n} mode {mode}")
        obs = ctx.run(lambda: run_pass(ctx, workflow, world.trigger, api))
        ctx.evaluations += 1
        orders.add(tuple(order))
        compare(ctx, world, ref, expected, obs)
        summary = canonical(obs)
        if first is None:
            first = summary
        else:
            for part, value in summary.items():
                if value != first[part]:
                    raise Violation(
                        f"schedule-dependent:{part}",
                        f"schedule {n} (mode {mode}) gives\n{value}\nthe first one gave\n{first[part]}",
                    )
    ctx.nontrivial = len(orders) > 1
    digest = hash_(world)
    for o in orders:
        if len(o) > 1:
            ctx.state(f"{digest}:{'>'.join(o)}")
            ctx.probe("completion-orders")


def hash_(world):
    import hashlib

    return hashlib.sha256("\n".join(world.describe()).encode()).hexdigest()[:10]


def canonical(obs):
    return {
        "result": wire_json([obs.cls, obs.value, obs.delay, obs.message]),
        "conditions": wire_json(obs.full_conditions),
        "state": wire_json(obs.state),
        "state_errors": wire_json(obs.state_errors),
        "resource_ids": wire_json(obs.resource_ids),
    }


def policy(ch, mode):
    """mode 0: nothing suspends for long; 1: random latencies; 2: loop turns only
    (interleaving without time passing); 3: later calls finish earlier;
    4: one straggler per pass."""
    state = {"n": 0}
    straggler = ch.below(12) if mode == 4 else None

    def plan(call):
        n = state["n"]
        state["n"] += 1
        if mode == 0:
            return Plan()
        if mode == 1:
            return Plan(
                turns=ch.int(0, 2), before=ch.int(0, 25) * 0.01, after=ch.int(0, 10) * 0.01
            )
        if mode == 2:
            return Plan(turns=ch.int(0, 9))
        if mode == 3:
            return Plan(before=max(0.0, 0.3 - 0.013 * n), turns=ch.int(0, 1))
        return Plan(before=2.5 if n == straggler else ch.int(0, 3) * 0.01)

    return plan
