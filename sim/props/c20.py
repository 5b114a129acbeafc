"""C20: preparing any definition never crashes; schema violations are rejected."""

from __future__ import annotations

import asyncio
import collections
import json
import sys

from ..core import Ctx, Violation, turns
from .. import specgen
from ..ftsim import locals_raise
from ..specgen import SpecGen, broken_rule, schema_of

PROP = "C20"
LEVEL = "exploration"
COUNTS = {"quick": 12000, "thorough": 200000}
RULE = (
    "Concurrent actors offer definitions of all five kinds to the cache (and straight to the preparers), where "
    "what they reference is present, broken, absent, changed or deleted at random: specs generated from the "
    "bundled CRDs with CEL derived from the full grammar in every expression field, specs in which one chosen "
    "rule of the schema is broken, and specs confused at an arbitrary path (other types, missing, repeated, "
    "oversized, deeply nested, odd texts and numbers).  Nothing may raise, also not when references change and "
    "dependents are prepared again; an independent reader of the CRDs decides which have to be refused, with "
    "nothing compiled or looked up.  Non-trivial: a spec was prepared."
)
STATE_MEASURE = "distinct (kind, what was done to the spec, rule broken, outcome) combinations"
REAL = ["koreo.*.prepare", "koreo.schema", "koreo.cache", "koreo.registry", "koreo.cel", "celpy", "fastjsonschema", "kr8s object classes"]
STUB = ["event loop selector, clock"]
ASSUMPTIONS = [
    "the schema is the JSON-schema part of the CRDs: x-kubernetes-* rules are the API server's, and `nullable` is not JSON schema",
    "1.0 is an integer, as JSON has it",
    "definitions do not reference themselves (C17)",
]

NAMES = {
    "ValueFunction": ["f0", "f1", "f2"],
    "ResourceFunction": ["r0", "r1"],
    "ResourceTemplate": ["t0", "t1"],
    "Workflow": ["w0", "w1"],
    "FunctionTest": ["ft0"],
}


def scenario(ctx: Ctx):
    return ctx.run(lambda: main(ctx))


def preparers():
    from koreo.function_test.prepare import prepare_function_test
    from koreo.function_test.structure import FunctionTest
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.structure import ResourceFunction
    from koreo.resource_template.prepare import prepare_resource_template
    from koreo.resource_template.structure import ResourceTemplate
    from koreo.value_function.prepare import prepare_value_function
    from koreo.value_function.structure import ValueFunction
    from koreo.workflow.prepare import prepare_workflow
    from koreo.workflow.structure import Workflow

    return {
        "ValueFunction": (ValueFunction, prepare_value_function),
        "ResourceFunction": (ResourceFunction, prepare_resource_function),
        "ResourceTemplate": (ResourceTemplate, prepare_resource_template),
        "Workflow": (Workflow, prepare_workflow),
        "FunctionTest": (FunctionTest, prepare_function_test),
    }


class Watched:
    """Awaits a preparer; knows which guarded functions were called meanwhile."""

    def __init__(self, coro, guarded, calls):
        self.coro, self.guarded, self.calls = coro, guarded, calls

    def seen(self, frame, event, arg):
        if event == "call" and frame.f_code in self.guarded:
            self.calls.append(self.guarded[frame.f_code])

    def __await__(self):
        it = self.coro.__await__()
        while True:
            sys.setprofile(self.seen)
            try:
                waits_for = it.send(None)
            except StopIteration as done:
                return done.value
            finally:
                sys.setprofile(None)
            yield waits_for


class World:
    def __init__(self, ctx: Ctx):
        import celpy
        import kr8s
        import koreo.cache as cache

        self.ctx = ctx
        self.kinds = preparers()
        self.versions = collections.Counter()
        self.guarded = {
            getattr(fn, "func", fn).__code__: name
            for name, fn in {
                "compile": celpy.Environment.compile,
                "program": celpy.Environment.program,
                "cache lookup": cache.get_resource_from_cache,
                "system data lookup": cache.get_resource_system_data_from_cache,
                "kind lookup": kr8s.objects.get_class,
                "new kind": kr8s.objects.new_class,
            }.items()
        }

    def names(self, referrer):
        """Only what comes earlier: nothing references itself."""

        def pick(kind_of_referrer, kind):
            names = NAMES.get(kind, [])
            if kind == "Workflow":
                return names[: names.index(referrer)] if referrer in names else names
            return names

        return pick

    def generate(self, ch, kind, name):
        gen = SpecGen(ch, self.names(name), sane=ch.pick([50, 90, 0]))
        root = gen.spec(kind)
        done = "as-is"
        for _ in range(ch.weighted([(0, 5), (1, 5), (2, 1)])):
            if ch.bool():
                done = gen.break_rule(root)
            else:
                done = "confuse-" + gen.confuse(root)
            gen.sites = gen.sites[:1]
            if root["spec"] is None or not isinstance(root["spec"], dict):
                break
        spec = root["spec"]
        if not isinstance(spec, dict):
            return spec, done
        # Self references are C17's.
        text = repr_of(spec)
        for own in NAMES["Workflow"]:
            if kind == "Workflow" and own >= name and f"'{own}'" in text:
                return {"steps": []}, "self-reference"
        return spec, done

    async def prepare(self, kind, name, spec, done, direct):
        """One preparation, judged."""
        _, preparer = self.kinds[kind]
        broken = broken_rule(schema_of(kind), spec)
        calls: list = []
        text = show(spec)
        self.ctx.nontrivial = True
        self.ctx.evaluations += 1
        try:
            coro = preparer(name, spec)
            result = await (Watched(coro, self.guarded, calls) if broken else coro)
        except Exception as err:
            if kind == "FunctionTest" and not broken and locals_raise(spec, type(err)):
                # see FINDINGS
                from koreo.result import PermFail

                self.ctx.probe("open:function-test-locals")
                return PermFail(message="raised")
            raise Violation(
                f"raised:{kind}:{type(err).__name__}", f"{name} {done} {text}: {err!r} {where(err)}"
            ) from None
        outcome = type(result).__name__
        if isinstance(result, tuple):
            outcome = "prepared"
            self.check_prepared(kind, result, text)
        elif outcome in ("PermFail", "Retry"):
            if not (isinstance(result.message, str) and result.message.strip()):
                raise Violation(f"no-message:{kind}", f"{result} for {text}")
        else:
            raise Violation(f"result:{kind}", f"{result!r} for {text}")
        if broken:
            rule = broken.split(": ", 1)[1]
            self.ctx.fault("schema-violation")
            if outcome != "PermFail":
                raise Violation(f"accepted:{kind}", f"breaks {broken}: {text} -> {outcome}")
            if calls:
                raise Violation(f"too-late:{kind}", f"breaks {broken}, but first: {calls} for {text}")
        else:
            rule = "-"
        self.ctx.probe(f"{kind}:{outcome}")
        self.ctx.state(f"{kind}:{done}:{rule}:{outcome}")
        self.ctx.log(f"{kind} {name} {done} {rule} {outcome}")
        return result

    def check_prepared(self, kind, result, text):
        from koreo.registry import Resource

        if len(result) != 2 or not isinstance(result[0], self.kinds[kind][0]):
            raise Violation(f"result:{kind}", f"{result!r} for {text}")
        for watched in result[1] or ():
            if not isinstance(watched, Resource):
                raise Violation(f"result:{kind}", f"watches {watched!r} for {text}")


def show(spec):
    try:
        text = json.dumps(spec)
    except RecursionError:
        text = "<deep>"
    return text if len(text) < 4000 else text[:4000] + "..."


def repr_of(spec):
    try:
        return repr(spec)
    except RecursionError:
        return ""


def where(err):
    tb, last = err.__traceback__, ""
    while tb:
        name = tb.tb_frame.f_code.co_filename
        if "/koreo/" in name:
            last = f"{name.rsplit('/koreo/', 1)[1]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return last


async def main(ctx: Ctx):
    from koreo.cache import delete_from_cache, prepare_and_cache

    world = World(ctx)
    raised: list = []

    async def offer(ch, kind, name, spec, done):
        cls, _ = world.kinds[kind]

        async def preparer(key, given):
            try:
                return await world.prepare(kind, key, given, done, False)
            except Violation as err:
                raised.append(err)
                raise

        world.versions[kind, name] += 1
        try:
            result = await prepare_and_cache(
                resource_class=cls,
                preparer=preparer,
                metadata={"name": name, "resourceVersion": f"{world.versions[kind, name]}"},
                spec=spec,
            )
        except Violation:
            raise
        except Exception as err:
            raise Violation(
                f"cache-raised:{kind}:{type(err).__name__}", f"{name} {done} {show(spec)}: {err!r} {where(err)}"
            ) from None
        if not (isinstance(result, cls) or type(result).__name__ in ("PermFail", "Retry")):
            raise Violation(f"result:{kind}", f"{result!r}")

    async def actor(no):
        ch = ctx.stream(f"actor{no}")
        for _ in range(ch.int(2, 6)):
            kind = ch.pick(specgen.KINDS)
            name = ch.pick(NAMES[kind])
            if ch.chance(6):
                ctx.fault("deleted-while-referenced")
                await delete_from_cache(world.kinds[kind][0], name)
            else:
                spec, done = world.generate(ch, kind, name)
                if ch.chance(40):
                    await world.prepare(kind, name, specgen.clone(spec), done, True)
                else:
                    await offer(ch, kind, name, spec, done)
            await turns(ch.below(4))

    setup = ctx.stream("setup")
    for kind, names in NAMES.items():
        for name in names[:2]:
            if setup.chance(60):
                await offer(setup, kind, name, GOOD[kind](setup, name), "good")
            else:
                ctx.fault("reference-absent")
    tasks = [asyncio.ensure_future(actor(no)) for no in range(setup.int(1, 3))]
    results = await asyncio.gather(*tasks, return_exceptions=True)
    for result in results:
        if isinstance(result, BaseException):
            raise result
    # Whatever was prepared is prepared again when what it references changes.
    for kind in ("ValueFunction", "ResourceTemplate", "ResourceFunction", "Workflow"):
        for name in NAMES[kind]:
            if setup.chance(40):
                await offer(setup, kind, name, GOOD[kind](setup, name), "good")
                await turns(5)
    await asyncio.sleep(1)
    if raised:
        raise raised[0]
    for context in ctx.loop.exception_contexts:
        raise Violation("lost", f"{context.get('message')} {context.get('exception')!r}")


def good_value(ch, name):
    return {
        "locals": {"p": "=inputs.a"},
        "return": ch.pick([{"spec": {"x": "=inputs.a"}}, {"x": "=inputs.b + 1"}, {"x": "=locals.p", "y": "=inputs['c'].d"}]),
    }


def good_resource(ch, name):
    spec = {
        "apiConfig": {"apiVersion": "sim.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "name": "=inputs.name", "namespace": "ns"},
        "return": {"x": "=resource.spec"},
    }  # fmt: skip
    template = ch.below(4)
    if template == 0:
        spec["resource"] = {"spec": {"x": "=inputs.a"}}
    else:
        spec["resourceTemplateRef"] = {"name": ["t0", "=inputs.name", "='t' + string(inputs.a)"][template - 1]}
        if ch.bool():
            spec["locals"] = {"x": ch.pick(["=inputs.a", "=inputs.nosuch.x", "=1 / inputs.a", "=inputs.a + 'x'", "=inputs.l.map(q, q.x)", "=has()", "='t0'", "=inputs.name"])}
            spec["resourceTemplateRef"]["name"] = ch.pick(["=locals.x", "=inputs.name + locals.x", "=locals.nosuch"])
    if ch.bool():
        spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "f0"}, "inputs": {"a": 1, "b": 2, "c": 3}}]
    return spec


GOOD = {
    "ValueFunction": good_value,
    "ResourceFunction": good_resource,
    "ResourceTemplate": lambda ch, name: {"template": {"apiVersion": "sim.koreo.dev/v1", "kind": "Widget", "spec": {"x": 1}}},
    "Workflow": lambda ch, name: {
        "steps": [{"label": "one", "ref": {"kind": ch.pick(["ValueFunction", "ResourceFunction"]), "name": ch.pick(["f0", "r0"])}, "inputs": {"a": "=parent.a"}}]
    },
    "FunctionTest": lambda ch, name: {
        "functionRef": ch.pick([{"kind": "ValueFunction", "name": "f0"}, {"kind": "ResourceFunction", "name": "r0"}]),
        "inputs": {"a": 1, "name": "t0", "l": [1, {"x": 2}]},
        "testCases": [{"expectReturn": {"x": 1}, "inputOverrides": ch.pick([{"name": "t1"}, {"l": []}, {"name": 7, "a": None}, {}])} for _ in range(ch.int(0, 3))],
    },
}  # fmt: skip


# --------------------------------------------------------------------------
# recorded findings
# --------------------------------------------------------------------------


def function_test_locals(ctx):
    """The locals of a function which uses a template by a computed name raise."""

    async def main():
        world = World(ctx)
        from koreo.cache import prepare_and_cache

        for text in ("=inputs.l.map(q, q.x)", "=has()"):
            cls, preparer = world.kinds["ResourceFunction"]
            spec = good_resource(_First(), "r0") | {"resourceTemplateRef": {"name": "=locals.x"}, "locals": {"x": text}}
            spec.pop("resource", None)
            await prepare_and_cache(
                resource_class=cls, preparer=preparer, metadata={"name": "r0", "resourceVersion": text}, spec=spec
            )
            _, preparer = world.kinds["FunctionTest"]
            test = {
                "functionRef": {"kind": "ResourceFunction", "name": "r0"}, "inputs": {"l": [1]},
                "testCases": [{"expectReturn": {"x": 1}}],
            }  # fmt: skip
            try:
                result = await preparer("ft0", test)
            except Exception as err:
                ctx.log(f"{text} {err!r}")
                raise Violation("finding:function-test-locals", f"{text}: {err!r} {where(err)}") from None
            ctx.log(f"{text} {type(result).__name__}")

    ctx.run(main)


class _First:
    below = staticmethod(lambda n: 0)
    bool = staticmethod(lambda: False)
    pick = staticmethod(lambda seq: seq[0])


FINDINGS = [function_test_locals]
