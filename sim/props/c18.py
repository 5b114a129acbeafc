"""C18: FunctionTest cases chain; variant and skipped cases leave no trace."""

from __future__ import annotations

import asyncio
import copy
import json
import re

from ..core import Ctx, HarnessError, Violation
from .. import boot, expr as E
from .. import ftsim as F
from ..cluster import Plan, SimApi
from ..rfsim import merge
from ..world import outcome_of
from .c12 import dump

PROP = "C18"
LEVEL = "exploration"
COUNTS = {"quick": 1500, "thorough": 50000}
RULE = (
    "One scenario: a generated ResourceFunction or ValueFunction and a FunctionTest of 2-14 cases mixing "
    "inputOverrides, currentResource, overlayResource, the four assertions, variant and skip. A small model "
    "carries inputs and resource from case to case and asks the real reconcile what happens in each; verdict, "
    "outcome and the inputs the Function saw must agree. The test is then run again and with variants removed, "
    "added and moved, with skipped cases removed or added, and next to production passes of the same Function "
    "(kind lookups hanging): no other case's result may differ. Function, fixtures and what production "
    "passes do are compared before and after. Non-trivial: a variant or skipped case precedes another case."
)
STATE_MEASURE = "distinct (function kind, case setup, what happened, assertion kind, verdict, what preceded)"
REAL = [
    "koreo.function_test (prepare, run)", "koreo.schema", "koreo.value_function", "koreo.resource_function",
    "koreo.resource_template", "koreo.cel", "koreo.cache", "celpy", "kr8s classes",
]  # fmt: skip
STUB = ["HTTP transport, API server and kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "inputOverrides merge into the inputs key by key, overlayResource into the resource",
    "after a patch the resource is the current one with the sent top-level values replacing its own",
    "inputs overridden with an empty map over a map are not generated",
]  # fmt: skip


class Step:
    """What the model says of one case."""

    def __init__(self, spec, want, truth=None):
        self.spec, self.want, self.truth = spec, want, truth


class Model:
    def __init__(self, world):
        self.world = world
        self.known = {}

    async def truth(self, inputs, resource):
        key = json.dumps([inputs, resource])
        if key not in self.known:
            self.known[key] = await self.world.truth(inputs, resource)
        return self.known[key]

    async def case(self, spec, inputs, resource):
        """-> Step, next inputs, next resource."""
        if spec.get("skip"):
            return Step(spec, True), inputs, resource
        mine = F.overlay_inputs(inputs, spec.get("inputOverrides"))
        given = resource
        if "overlayResource" in spec:
            if not resource:
                return None
            if has_failure(spec["overlayResource"]):
                return Step(spec, False), inputs, resource
            given = merge(resource, evaluated(spec["overlayResource"], mine))
        elif "currentResource" in spec:
            given = spec["currentResource"]
        truth = await self.truth(mine, given)
        if assertion_of(spec) and F.treacherous(assertion_of(spec), truth):
            raise E.Open
        want = F.verdict(assertion_of(spec), truth) if assertion_of(spec) else None
        step = Step(spec, want, truth)
        if spec.get("variant"):
            return step, inputs, resource
        return step, mine, truth.after

    async def play(self, base, initial, specs):
        """What a run must show; None if that is not specified."""
        inputs, resource, out = base, initial, []
        for spec in specs:
            try:
                result = await self.case(spec, inputs, resource)
            except (E.Open, E.EvalFail):
                return None
            if result is None:
                return None
            step, inputs, resource = result
            out.append(step)
            if not spec.get("variant") and step.want is not True:
                return out if step.want is False else None
        return out


FAILING = "=nosuch.field"
VALUES = {"=1 + 2": 3, "='a' + 'b'": "ab", "=[1, 2].map(q, q * 2)": [2, 4]}


READS = {  # an overlayResource sees the inputs of its case by their names
    f"={name}": name for name in ("n", "s", "b", "l")
} | {f"=[{name}]": name for name in ("n", "s")}


def read(text, inputs):
    if READS[text] not in inputs:
        raise E.Open("not given")
    value = copy.deepcopy(inputs[READS[text]])
    return [value] if text.startswith("=[") else value


def evaluated(doc, inputs):
    if isinstance(doc, dict):
        return {k: evaluated(v, inputs) for k, v in doc.items()}
    if isinstance(doc, list):
        return [evaluated(v, inputs) for v in doc]
    if isinstance(doc, str) and doc in READS:
        return read(doc, inputs)
    return copy.deepcopy(VALUES.get(doc, doc)) if isinstance(doc, str) else doc


def has_failure(overlay):
    return FAILING in json.dumps(overlay)


def assertion_of(spec):
    return {k: v for k, v in spec.items() if k.startswith("expect")}


def scenario(ctx: Ctx):
    world = F.Subject(ctx)
    ctx.run(lambda: main(ctx, world))


class Bench:
    def __init__(self, ctx, world, base, initial):
        self.ctx, self.world, self.base, self.initial = ctx, world, base, initial
        self.model = Model(world)
        self.labels = 0

    def label(self):
        self.labels += 1
        return f"c{self.labels:02}"

    def test_spec(self, specs):
        spec = {"functionRef": self.world.ref, "testCases": copy.deepcopy(specs)}
        if self.base:
            spec["inputs"] = copy.deepcopy(self.base)
        if self.initial is not None:
            spec["currentResource"] = copy.deepcopy(self.initial)
        return spec

    async def gen_case(self, ch, inputs, resource, kind=None):
        """A case which makes sense after those before it."""
        spec = {"label": self.label()}
        kind = kind or ch.weighted([("plain", 6), ("variant", 4), ("skip", 2), ("skip-variant", 1)])
        if "variant" in kind:
            spec["variant"] = True
        if "skip" in kind:
            spec["skip"] = True
        if ch.chance(45 if kind == "plain" else 70):
            overrides = self.world.some_inputs(ch, partial=True)
            if ch.chance(25):
                overrides[ch.pick(["extra", "n"])] = ch.pick([7, "seven", None, [], {"x": {"y": 1}}])
            spec["inputOverrides"] = overrides
        how = ch.weighted([("none", 5), ("current", 3), ("overlay", 4)])
        if how == "current":
            other = await self.world.some_resource(ch, self.world.some_inputs(ch))
            if other:
                spec["currentResource"] = other
        elif how == "overlay" and resource:
            spec["overlayResource"] = some_overlay(ch)
            if "variant" in kind and ch.chance(8):
                spec["overlayResource"] = {"status": {"x": FAILING}}
        done = await self.model.case(spec, inputs, resource)
        truth = done[0].truth
        if truth is None:
            # skipped, or can not be set up: anything will do
            return spec | F.outcome(ch, ch.pick(F.OUTCOMES), "whatever", 9)
        assertion = F.derived(ch, truth, self.world.is_rf)
        if ch.chance(4 if kind == "plain" else 35):
            assertion = F.deviate(ch, assertion, truth) or assertion
            if F.treacherous(assertion, truth):
                assertion = F.outcome(ch, ch.pick(F.OUTCOMES), "", 0)
        if kind == "plain" and F.verdict(assertion, truth) is None:
            assertion = F.outcome(ch, {c.lower(): c for c in F.OUTCOMES}[truth.cls], "", 0)
        return spec | assertion

    async def gen_cases(self, ch, count):
        specs, inputs, resource = [], self.base, self.initial
        for _ in range(count):
            try:
                spec = await self.gen_case(ch, inputs, resource)
                step, inputs, resource = await self.model.case(spec, inputs, resource)
            except (E.Open, E.EvalFail):
                continue
            specs.append(spec)
        return specs

    async def check(self, why, specs, test=None, alone=True):
        """Run it; compare with the model; -> label -> what is said of it."""
        want = await self.model.play(self.base, self.initial, specs)
        if want is None:
            return None
        spec = self.test_spec(specs)
        test = test or await F.prepare_test(spec)
        before = fixtures(test)
        done = await F.run_test(test, spec)
        if fixtures(test) != before:
            raise Violation("fixtures-modified", f"{why} {json.dumps(spec)}")
        results = done.result.test_results
        about = f"{why}: {json.dumps(spec)}"
        if len(results) != len(want):
            raise Violation("cases", f"{len(results)} results, not {len(want)}; {about}")
        said, seen = {}, []
        preceded = "start"
        for i, (step, got) in enumerate(zip(want, results)):
            label = step.spec["label"]
            self.ctx.evaluations += 1
            ((kind, _),) = assertion_of(step.spec).items()
            setup = [k for k in ("inputOverrides", "currentResource", "overlayResource", "variant", "skip") if k in step.spec]
            self.ctx.state(f"{self.world.is_rf}:{setup}:{step.truth and (step.truth.cls, step.truth.method)}:{kind}:{step.want}:{preceded}")
            preceded = "skip" if "skip" in setup else "variant" if "variant" in setup else "plain"
            if preceded != "plain" and i + 1 < len(want):
                self.ctx.nontrivial = True
            if step.want is not None and bool(got.test_pass) is not step.want:
                raise Violation(
                    f"chain:{kind}",
                    f"case {i} {label} {'passes' if got.test_pass else 'fails'}: {got.message} {got.differences}; "
                    f"happened {step.truth and step.truth.summary()}; {about}",
                )  # fmt: skip
            if not (got.label or "").endswith(label):
                raise Violation("label", f"{got.label} not {label}; {about}")
            if step.truth is not None:
                seen += step.truth.seen
                ours = (step.truth.cls, step.truth.value, step.truth.delay, step.truth.message)
                theirs = outcome_of(got.outcome)
                if norm(ours) != norm(theirs):
                    raise Violation("outcome", f"case {i} {label} {theirs} not {ours}; {about}")
            said[label] = norm([
                bool(got.test_pass), outcome_of(got.outcome), outcome_of(got.expected_outcome), got.message, got.differences,
            ])  # fmt: skip
        if alone and norm(seen) != norm(done.seen):
            raise Violation("inputs", f"the Function saw {done.seen} not {seen}; {about}")
        self.ctx.log(f"{why} {len(results)} {sorted(said.items())}")
        return said, [s.spec["label"] for s in want]

    def same(self, why, before, after, specs, other):
        """Cases in both runs must be judged the same."""
        if before is None or after is None:
            return
        variants = set()
        if why == "moved":
            variants = {s["label"] for s in specs if s.get("variant") and not s.get("skip")}
        for label in before[1]:
            if label in after[0] and label not in variants:
                if before[0][label] != after[0][label]:
                    raise Violation(
                        "trace-left",
                        f"{why}: {label} {before[0][label]} became {after[0][label]}\n"
                        f"{json.dumps(self.test_spec(specs))}\n{json.dumps(other)}",
                    )  # fmt: skip


def norm(value):
    """Positions, and orders that mean nothing, left out."""
    text = json.dumps(sort(value), sort_keys=True, default=str)
    return re.sub(r"testCases\[\d+\]", "testCases[]", text)


def sort(value):
    if isinstance(value, dict):
        return {str(k): sort(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        out = [sort(v) for v in value]
        if out and all(isinstance(v, str) and v.startswith("<") for v in out):
            return sorted(out)
        return out
    if isinstance(value, (int, float, str)) or value is None:
        return E.to_py(value) if not type(value).__module__ == "builtins" else value
    return str(value)


def fixtures(test):
    return dump([getattr(test, f, None) for f in ("inputs", "initial_resource", "test_cases")])


def some_overlay(ch):
    return ch.pick([
        {"status": {"phase": "Ready"}}, {"status": {"phase": "Old", "ready": True}}, {"spec": {"n": ch.int(0, 5)}},
        {"spec": {"s": "drifted", "deep": {"x": [1]}}}, {"metadata": {"labels": {"added": "yes"}}}, {"data": ["other"]},
        {"status": {"sum": "=1 + 2", "list": ["='a' + 'b'"], "all": "=[1, 2].map(q, q * 2)"}}, {"spec": "replaced"},
        {"status": {"from": ch.pick(sorted(READS))}}, {"spec": {ch.pick(["s", "n"]): ch.pick(sorted(READS))}},
        {"status": {"seen": ["=n", "=s"], "n": "=n"}},
        {"spec": {"b": ch.bool(), "l": []}, "status": {"observed": ch.int(0, 3)}}, {"spec": {"n": None}},
    ])  # fmt: skip


async def main(ctx, world):
    ch = ctx.stream("case")
    await world.define()
    base = world.some_inputs(ch) if ch.chance(92) else {}
    initial = await world.some_resource(ch, base) if ch.chance(50) else None
    bench = Bench(ctx, world, base, initial)
    specs = await bench.gen_cases(ch, ch.int(2, 14))
    if not specs:
        return
    ctx.log(json.dumps(bench.test_spec(specs), sort_keys=True))
    # the first thing that ever happens to the Function is its test
    fresh = ch.chance(50)
    if fresh:
        boot.reset()
        await world.offer("fresh")
        ctx.probe("fresh")
    live = live_view(world)
    test = await F.prepare_test(bench.test_spec(specs))
    first = await bench.check("first", specs, test)
    if first is None:
        return
    if live_view(world) != live:
        raise Violation("function-modified", f"{live} became {live_view(world)}; {json.dumps(bench.test_spec(specs))}")
    if fresh:
        await after_test(ctx, bench, ch)
    bench.same("again", first, await bench.check("again", specs, test), specs, specs)
    for why in ch.shuffle(["removed", "some-removed", "added", "moved", "unskipped", "skips-added", "concurrent"])[: ch.int(2, 4)]:
        ctx.probe(why)
        if why == "concurrent":
            await concurrent(ctx, bench, ch, specs, first)
            continue
        other = await rearranged(bench, ch, why, specs)
        if other and len(other) <= 20:
            bench.same(why, first, await bench.check(why, other), specs, other)
    # the Function still does what it did
    for key, truth in list(bench.model.known.items())[:3]:
        inputs, resource = json.loads(key)
        now = await world.truth(inputs, resource)
        if now.summary() != truth.summary() or now.calls != truth.calls:
            raise Violation("function-modified", f"{truth.summary()} became {now.summary()}: {key}")


async def rearranged(bench, ch, why, specs):
    keep = [s for s in specs if not s.get("variant") or s.get("skip")]
    if why == "removed":
        return keep
    if why == "some-removed":
        return [s for s in specs if not s.get("variant") or s.get("skip") or ch.bool()]
    if why == "unskipped":
        return [s for s in specs if not s.get("skip") or ch.chance(20)]
    if why == "moved":
        out = list(keep)
        for s in specs:
            if s not in keep:
                out.insert(ch.int(0, len(out)), s)
        return out
    out = list(specs)
    for _ in range(ch.int(1, 3)):
        where = ch.int(0, len(out))
        state = await state_before(bench, out, where)
        if state is None:
            continue
        try:
            spec = await bench.gen_case(ch, *state, kind="variant" if why == "added" else ch.pick(["skip", "skip-variant"]))
        except (E.Open, E.EvalFail):
            continue
        out.insert(where, spec)
    return out


async def state_before(bench, specs, where):
    inputs, resource = bench.base, bench.initial
    for spec in specs[:where]:
        try:
            done = await bench.model.case(spec, inputs, resource)
        except (E.Open, E.EvalFail):
            return None
        if done is None:
            return None
        step, inputs, resource = done
        if not spec.get("variant") and step.want is not True:
            return None
    return inputs, resource


def live_view(world):
    """The parts of the Function that are not expressions."""
    if not world.is_rf or not world.definition.given:
        return None  # not given: see FINDINGS
    return dump(world.function)


async def production(ctx, world, inputs, lookup=None):
    """A pass against the cluster; -> its requests."""
    from koreo.resource_function.reconcile import reconcile_resource_function

    api = SimApi(ctx, world.cluster, lambda call: Plan(turns=world.net.below(3), before=world.net.below(20) / 100))
    if lookup:
        api.lookup_policy = lambda kind: lookup
    await reconcile_resource_function(
        api=api, location="production", function=world.function,
        owner=("ns-a", E.to_cel({"uid": "uid-1"})), inputs=E.to_cel(copy.deepcopy(inputs)),
    )  # fmt: skip
    for call in api.calls:
        if call.plural != world.definition.plural:
            raise Violation("function-modified", f"asked for {call.plural}: {call!r} {json.dumps(world.definition.spec())}")
    return api


async def after_test(ctx, bench, ch):
    """Passes after a test ask for the right things."""
    world = bench.world
    if not world.is_rf:
        return
    inputs = bench.base or world.some_inputs(ch)
    await production(ctx, world, inputs)
    if ch.bool() and world.definition.given:
        await world.offer("changed", last_only=True)
        await production(ctx, world, inputs)
        ctx.probe("offered-again")


async def concurrent(ctx, bench, ch, specs, first):
    """The test next to production passes and to itself."""
    world = bench.world
    fresh = ch.bool()
    if fresh:
        boot.reset()
        await world.offer("concurrent")
    lookup = Plan(turns=ch.below(3), before=ch.pick([0.0, 1.0, 14.0, 40.0]), fault=ch.pick([None, None, "hang", "http500"]))
    tasks = []
    if world.is_rf and not world.definition.given:
        # otherwise the test's cases wait with the passes, see FINDINGS
        lookup = Plan(turns=lookup.turns, before=min(lookup.before, 14.0))
    if world.is_rf:
        for _ in range(ch.int(1, 2)):
            tasks.append(asyncio.ensure_future(production(ctx, world, world.some_inputs(ch), lookup)))
        for _ in range(ch.below(4)):
            await asyncio.sleep(0)
    test = await F.prepare_test(bench.test_spec(specs))
    try:
        runs = await asyncio.gather(*(bench.check("concurrent", specs, test, alone=False) for _ in range(2)))
        for run in runs:
            bench.same("concurrent", first, run, specs, specs)
    finally:
        done, pending = await asyncio.wait(tasks, timeout=100) if tasks else ((), ())
        for task in pending:
            task.cancel()
        await asyncio.gather(*pending, return_exceptions=True)
    for task in done:
        err = task.exception()
        if isinstance(err, Violation):
            raise err


# --------------------------------------------------------------------------
# recorded findings: the smallest histories showing them
# --------------------------------------------------------------------------


async def a_function(name, plural=None, kind="Mouse"):
    from koreo.cache import prepare_and_cache
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.structure import ResourceFunction

    api = {"apiVersion": "sim.koreo.dev/v1", "kind": kind, "name": "obj", "namespace": "ns-a"}
    if plural:
        api["plural"] = plural
    out = await prepare_and_cache(
        resource_class=ResourceFunction, preparer=prepare_resource_function,
        metadata={"name": name, "resourceVersion": "1"}, spec={"apiConfig": api, "resource": {"spec": {"n": 1}}},
    )  # fmt: skip
    if not isinstance(out, ResourceFunction):
        raise Violation("refused", f"{out}")
    return out


async def a_pass(ctx, function, lookup=None):
    """-> the plurals asked for."""
    from koreo.resource_function.reconcile import reconcile_resource_function

    from ..cluster import Cluster

    cluster = Cluster(ctx)
    cluster.define("sim.koreo.dev/v1", "Mouse", "mice")
    api = SimApi(ctx, cluster, lambda call: Plan())
    api.lookup_policy = lambda kind: lookup
    await reconcile_resource_function(
        api=api, location="production", function=function, owner=("ns-a", E.to_cel({"uid": "uid-1"})), inputs=E.to_cel({}),
    )  # fmt: skip
    return {call.plural for call in api.calls}


async def a_test(name, current=True):
    spec = {"functionRef": {"kind": "ResourceFunction", "name": name}, "testCases": [
        {"label": "one", "expectOutcome": {"retry": {"message": "", "delay": 0}}},
    ]}  # fmt: skip
    if current:
        spec["currentResource"] = {
            "apiVersion": "sim.koreo.dev/v1", "kind": "Mouse", "metadata": {"name": "obj", "namespace": "ns-a"}, "spec": {"n": 2},
        }  # fmt: skip
    return await F.run_test(await F.prepare_test(spec), spec)


def class_registered(ctx):
    """A Function prepared after a test with a current resource."""

    async def main():
        await a_function("tested", "mice")
        await a_test("tested")
        later = await a_function("later", "mice")
        asked = await a_pass(ctx, later)
        ctx.log(f"asked for {asked}")
        if asked != {"mice"}:
            raise Violation("finding:class-registered", f"asked for {asked}")

    ctx.run(main)


def plural_recorded(ctx):
    """A pass of a Function without a plural, after its test."""

    async def main():
        function = await a_function("tested")
        await a_test("tested", current=False)
        asked = await a_pass(ctx, function)
        ctx.log(f"asked for {asked}")
        if asked != {"mice"}:
            raise Violation("finding:plural-recorded", f"asked for {asked}")

    ctx.run(main)


def lookup_shared(ctx):
    """A test of a Function without a plural, while a pass looks it up."""

    async def main():
        function = await a_function("tested")
        passing = asyncio.ensure_future(a_pass(ctx, function, Plan(fault="hang")))
        await asyncio.sleep(1)
        try:
            done = await a_test("tested", current=False)
        except Violation as err:
            raise Violation("finding:lookup-shared", err.msg) from err
        finally:
            passing.cancel()
            await asyncio.gather(passing, return_exceptions=True)
        if not all(r.test_pass for r in done.result.test_results):
            raise Violation("finding:lookup-shared-other", f"{done.result}")

    ctx.run(main)


FINDINGS = [class_registered, plural_recorded, lookup_shared]
