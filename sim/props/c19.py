"""C19: a FunctionTest case passes exactly when its assertion holds."""

from __future__ import annotations

import copy
import json

from ..core import Ctx, HarnessError, Violation
from .. import expr as E
from .. import ftsim as F

PROP = "C19"
LEVEL = "exploration"
COUNTS = {"quick": 2400, "thorough": 90000}
RULE = (
    "One scenario: a generated ResourceFunction or ValueFunction and 2-4 situations (inputs, overrides, "
    "absent / wanted / drifted current resource). The real reconcile against a recording API server says what "
    "the Function does in each; assertions describing it, single deviations from them (changed, retyped, "
    "missing, extra, reordered, other class, other delay, other text) and assertions describing another "
    "situation then become up to 20 variant cases and single-case FunctionTests. Every verdict is compared "
    "with an independent one. Non-trivial: at least one pass and one failure were expected."
)
STATE_MEASURE = "distinct (function kind, what happened, assertion kind, how made, verdict)"
REAL = [
    "koreo.function_test (prepare, run)", "koreo.schema", "koreo.value_function", "koreo.resource_function",
    "koreo.resource_template", "koreo.cel", "koreo.predicate_helpers", "koreo.cache", "celpy", "kr8s classes",
]  # fmt: skip
STUB = ["HTTP transport and API server of the reference run", "event loop selector, clock"]
ASSUMPTIONS = [
    "what the Function does is what its reconcile does against an API server holding exactly the case's current resource",
    "1 against 1.0 is open", "as-set lists with repeated or non-scalar members are open",
    "an object sent as a patch means the object sent or the object resulting from it: where they differ in verdict, open",
]  # fmt: skip


def scenario(ctx: Ctx):
    world = F.Subject(ctx)
    ctx.run(lambda: main(ctx, world))


async def main(ctx, world):
    ch = ctx.stream("case")
    await world.define()
    situations = []
    for _ in range(ch.int(2, 4)):
        situations.append(await situation(world, ch))
    base, initial = situations[0][0], situations[0][1]
    verdicts = set()
    # everything as variants of one test
    cases = []
    for i in range(ch.int(6, 20)):
        cases.append(await case(world, ch, base, initial, situations, i))
    await judge(ctx, world, base, initial, cases, True, verdicts)
    for _ in range(ch.int(1, 4)):
        base, initial = ch.pick(situations)
        one = await case(world, ch, base, initial, situations, 0)
        await judge(ctx, world, base, initial, [one], ch.chance(20), verdicts)
    if {True, False} <= verdicts:
        ctx.nontrivial = True


async def situation(world, ch):
    inputs = world.some_inputs(ch)
    if ch.chance(12):
        inputs.pop(ch.pick(sorted(inputs)))
    return inputs, await world.some_resource(ch, inputs)


async def case(world, ch, base, initial, situations, i):
    """One test case and what is true of it."""
    spec = {"label": f"c{i}"}
    inputs, resource = base, initial
    if ch.chance(45):
        overrides = world.some_inputs(ch, partial=True)
        try:
            inputs = F.overlay_inputs(base, overrides)
            spec["inputOverrides"] = overrides
        except (E.Open, E.EvalFail):
            inputs = base
    if ch.chance(60):
        other = ch.pick(situations)[1]
        if other:
            resource = spec["currentResource"] = copy.deepcopy(other)
            if ch.chance(15):
                resource["metadata"]["labels"] = {"extra": "label"}
    truth = await world.truth(inputs, resource, i)
    how = ch.weighted([("derived", 4), ("deviation", 5), ("elsewhere", 2), ("loose", 1)])
    about = truth
    if how == "elsewhere":
        there = ch.pick(situations)
        about = await world.truth(there[0], there[1], i)
    assertion = F.derived(ch, about, world.is_rf)
    if F.verdict(assertion, about) is False:
        raise HarnessError(f"{assertion} {about.summary()}")
    if how == "loose":
        # nothing but directives, or next to nothing
        key = ch.pick(["expectReturn", *(["expectResource"] if world.is_rf else [])])
        assertion = {key: ch.pick([
            {"x-koreo-compare-as-set": ["spec"]}, {"x-koreo-compare-as-map": {"spec": ["name"]}}, {"metadata": {}}, {"spec": None},
            {"x-koreo-compare-as-set": [], "x-koreo-compare-as-map": {}}, {"x-koreo-compare-last-applied": ["spec"]},
        ])}  # fmt: skip
    if how == "deviation":
        for _ in range(4):
            out = F.deviate(ch, assertion, truth)
            if out is not None:
                assertion = out
                break
            assertion = F.derived(ch, truth, world.is_rf)
    if F.treacherous(assertion, truth):
        assertion = F.outcome(ch, ch.pick(F.OUTCOMES), "", 0)
    return spec | assertion, assertion, truth, how


async def judge(ctx, world, base, initial, cases, variant, verdicts):
    specs = []
    for spec, *_ in cases:
        spec = copy.deepcopy(spec)
        if variant:
            spec["variant"] = True
        specs.append(spec)
    spec = {"functionRef": world.ref, "inputs": copy.deepcopy(base), "testCases": specs}
    if initial is not None:
        spec["currentResource"] = copy.deepcopy(initial)
    test = await F.prepare_test(spec)
    done = await F.run_test(test, spec)
    results = done.result.test_results
    if len(results) != len(cases):
        raise Violation("cases", f"{len(results)} of {len(cases)}: {json.dumps(spec)}")
    for i, ((case, assertion, truth, how), got) in enumerate(zip(cases, results)):
        want = F.verdict(assertion, truth)
        ctx.evaluations += 1
        ((kind, what),) = assertion.items()
        ctx.state(f"{world.is_rf}:{truth.cls}:{truth.method}:{kind}:{how}:{want}")
        ctx.log(f"{i} {how} {json.dumps(case, sort_keys=True)} want {want} got {got.test_pass}")
        if want is None:
            ctx.probe("open")
            continue
        verdicts.add(want)
        if bool(got.test_pass) is not want or not isinstance(got.test_pass, bool):
            raise Violation(
                f"{'passes' if got.test_pass else 'fails'}:{kind}",
                f"case {json.dumps(case)}\nof {json.dumps(spec)}\nhappened {truth.summary()}\n"
                f"said {got.message} {got.differences}",
            )  # fmt: skip


# --------------------------------------------------------------------------
# recorded findings: the smallest tests showing them
# --------------------------------------------------------------------------


async def tried(value, assertion, current=None, delete=False):
    """Does a case with this assertion pass?  None: it crashes."""
    from koreo.cache import prepare_and_cache
    from koreo.function_test.run import run_function_test
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.structure import ResourceFunction
    from koreo.value_function.prepare import prepare_value_function
    from koreo.value_function.structure import ValueFunction

    if not delete:
        kind, cls, preparer, spec = "ValueFunction", ValueFunction, prepare_value_function, {"return": value}
    else:
        kind, cls, preparer = "ResourceFunction", ResourceFunction, prepare_resource_function
        spec = {
            "apiConfig": {"apiVersion": "v1", "kind": "ConfigMap", "plural": "configmaps", "name": "obj",
                          "namespace": "ns-a", "deleteIfExists": True},
            "resource": {"data": value},
        }  # fmt: skip
    await prepare_and_cache(resource_class=cls, preparer=preparer, metadata={"name": "f", "resourceVersion": "1"}, spec=spec)
    test = {"functionRef": {"kind": kind, "name": "f"}, "testCases": [{"label": "one", **assertion}]}
    if current:
        test["currentResource"] = current
    test = await F.prepare_test(test)
    try:
        done = await run_function_test(location=F.LOCATION, function_test=test)
    except Exception:
        return None
    return done.test_results[0].test_pass


def expectation(sig, *tries):
    """-> a scenario: (arguments, should it pass)"""

    def finding(ctx):
        async def main():
            for args, kwargs, want in tries:
                got = await tried(*args, **kwargs)
                ctx.log(f"{json.dumps(args)} {kwargs} want {want} got {got}")
                if got is not want:
                    raise Violation(sig, f"{'crashes' if got is None else 'passes' if got else 'fails'}: {json.dumps(args)} {kwargs}")

        ctx.run(main)

    return finding


def returns(value, expected, want):
    return (value, {"expectReturn": expected}), {}, want


BY_NAME = {F.AS_MAP: {"l": ["name"]}}
FINDINGS = [
    expectation("finding:set-of-booleans", returns({"l": [1, 2]}, {"l": [2, True], F.AS_SET: ["l"]}, False)),
    expectation("finding:set-of-booleans-2", returns({"l": [False, "a"]}, {"l": ["a", 0], F.AS_SET: ["l"]}, False)),
    expectation("finding:map-of-scalars", returns({"l": [1]}, {"l": [{"name": "a"}], **BY_NAME}, False)),
    expectation("finding:map-of-null", returns({"l": None}, {"l": [{"name": "a"}], **BY_NAME}, False)),
    expectation("finding:map-for-scalars", returns({"l": [{"name": "a"}]}, {"l": ["a"], **BY_NAME}, False)),
    expectation(
        "finding:map-extra-member",
        returns({"l": [{"name": "a", "v": 1}, {"name": "a", "v": 2}]}, {"l": [{"name": "a", "v": 2}], **BY_NAME}, False),
    ),
    expectation(
        "finding:map-missing-member",
        returns({"l": [{"name": "a", "v": 2}]}, {"l": [{"name": "a", "v": 1}, {"name": "a", "v": 2}], **BY_NAME}, False),
    ),
    expectation(
        "finding:deleted-resource",
        (({"k": "v"}, {"expectResource": {F.AS_SET: ["data"]}}),
         {"delete": True, "current": {"apiVersion": "v1", "kind": "ConfigMap", "metadata": {"name": "obj", "namespace": "ns-a"}}},
         False),
    ),
]  # fmt: skip
