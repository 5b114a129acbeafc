"""Real definitions that name one another, offered, changed, broken, deleted and
offered again.  Once everything is quiet each of them has to behave as its
latest version says, with the latest versions of everything it names."""

from __future__ import annotations

import asyncio
import collections
import copy

from . import boot
from .cluster import Cluster, Plan, SimApi
from .core import Ctx, HarnessError, Violation, turns
from .world import OWNER, outcome_of

VERSION = "sim.koreo.dev/v1"


class Thing:
    """Model of one name."""

    def __init__(self, kind, name, rank):
        self.kind, self.name, self.rank = kind, name, rank
        self.plan = None  # latest version, None: absent
        self.gen = None
        self.version = 0

    @property
    def key(self):
        return (self.kind, self.name)

    @property
    def healthy(self):
        return self.plan is not None and self.plan["broken"] is None

    def __repr__(self):
        return f"{self.kind}:{self.name}"


class Reload:
    def __init__(self, ctx: Ctx):
        self.ctx = ctx
        self.ch = ch = ctx.stream("gen")
        things = [Thing("ValueFunction", f"f{i}", i) for i in range(ch.int(1, 3))]
        things += [Thing("ResourceFunction", f"r{i}", 10 + i) for i in range(ch.int(0, 2))]
        things += [Thing("Workflow", f"w{i}", 20 + i) for i in range(ch.int(1, 3))]
        things += [Thing("FunctionTest", f"t{i}", 40 + i) for i in range(ch.int(0, 2))]
        self.things = things
        self.by_key = {t.key: t for t in things}
        self.gens = 0
        self.cluster = Cluster(ctx)
        self.cluster.define(VERSION, "Widget", "widgets")

    # -- versions ---------------------------------------------------------------

    def functions(self, rank=99):
        return [t for t in self.things if t.kind.endswith("Function") and t.rank < rank]

    def new_plan(self, thing, ch):
        self.gens += 1
        plan = {"gen": self.gens, "broken": None}
        if ch.chance(14):
            plan["broken"] = ch.pick(["schema", "expression"])
        if thing.kind == "ResourceFunction":
            below = [t for t in self.things if t.kind == "ValueFunction"]
            plan["overlays"] = [
                {"ref": t.name, "bad": ch.chance(8), "skip": ch.chance(15)} for t in ch.subset(below, 55)
            ]
        if thing.kind == "Workflow":
            below = [t for t in self.things if t.rank < thing.rank]
            plan["steps"] = []
            for i in range(ch.int(1, 4)):
                if ch.chance(35):
                    refs = [ch.pick(below).key for _ in range(ch.int(1, 3))]
                    step = {"cases": refs, "chosen": ch.below(len(refs)), "default": ch.chance(60)}
                    step["fallback"] = step["default"] and ch.chance(40)
                else:
                    step = {"ref": ch.pick(below).key}
                step["bad"] = ch.pick(["skipIf", "inputs", "order", "state", "forEach"]) if ch.chance(5) else None
                plan["steps"].append(step)
        if thing.kind == "FunctionTest":
            target = ch.pick(self.functions())
            plan["target"] = target.key
            plan["expect"] = target.plan["gen"] if target.plan and ch.chance(70) else self.gens + 1
        return plan

    def spec(self, thing, plan):
        gen = plan["gen"]
        bad = plan["broken"] == "expression"
        if thing.kind == "ValueFunction":
            spec = {
                "locals": {"p": f"=simprobe('{thing.name}', {gen})"},
                "return": {"g": gen, "bad": "=1 +"} if bad else {"g": gen},
            }
        elif thing.kind == "ResourceFunction":
            spec = {
                "apiConfig": {
                    "apiVersion": VERSION, "kind": "Widget", "plural": "widgets", "owned": False,
                    "name": f"{thing.name}-object", "namespace": "ns-a",
                },
                "locals": {"p": f"=simprobe('{thing.name}', {gen})"},
                "resource": {"spec": {"own": gen}},
                "return": {"g": gen, "bad": "=1 +"} if bad else {"g": gen},
            }  # fmt: skip
            if plan["overlays"]:
                spec["overlays"] = []
                for o in plan["overlays"]:
                    entry = {"overlayRef": {"kind": "ValueFunction", "name": o["ref"]}}
                    if o["bad"]:
                        entry["skipIf"] = "=(1 +"
                    elif o["skip"]:
                        entry["skipIf"] = "=true"
                    spec["overlays"].append(entry)
        elif thing.kind == "Workflow":
            spec = {"steps": []}
            for i, step in enumerate(plan["steps"]):
                label = f"step_{i}"
                out = {"label": label, "inputs": {"x": "=parent.x"}}
                if "ref" in step:
                    out["ref"] = {"kind": step["ref"][0], "name": step["ref"][1]}
                else:
                    cases = []
                    for j, (kind, name) in enumerate(step["cases"]):
                        case = {"case": f"c{j}", "kind": kind, "name": name}
                        if step["default"] and j == step["chosen"]:
                            case["default"] = True
                        cases.append(case)
                    on = "nothing" if step["fallback"] else f"c{step['chosen']}"
                    out["inputs"]["on"] = on
                    out["refSwitch"] = {"switchOn": "=inputs.on", "cases": cases}
                if step["bad"] == "skipIf":
                    out["skipIf"] = "=(1 +"
                elif step["bad"] == "inputs":
                    out["inputs"]["bad"] = {"deep": ["=)"]}
                elif step["bad"] == "state":
                    out["state"] = {"bad": "=)"}
                elif step["bad"] == "forEach":
                    out["forEach"] = {"itemIn": "=[", "inputKey": "item"}
                elif step["bad"] == "order":
                    out["inputs"]["late"] = f"=steps.{label}"
                spec["steps"].append(out)
            if bad:
                spec["steps"][-1]["skipIf"] = "=1 +"
        else:
            kind, name = plan["target"]
            case = {"expectReturn": {"g": plan["expect"]}, "skip": False}
            if kind == "ResourceFunction":
                case["currentResource"] = {"spec": {"own": 0}}
                case = {"expectOutcome": {"retry": {"delay": 0, "message": ""}}, "inputOverrides": {"x": 1}}
            if bad:
                case["expectDelete"] = "neither"
            spec = {"functionRef": {"kind": kind, "name": name}, "testCases": [case]}
        if plan["broken"] == "schema":
            field = {"Workflow": "steps", "FunctionTest": "functionRef"}.get(thing.kind, "return")
            spec[field] = "nonsense"
        return spec

    # -- operations -------------------------------------------------------------

    def kinds(self):
        from koreo.function_test.prepare import prepare_function_test
        from koreo.function_test.structure import FunctionTest
        from koreo.resource_function.prepare import prepare_resource_function
        from koreo.resource_function.structure import ResourceFunction
        from koreo.value_function.prepare import prepare_value_function
        from koreo.value_function.structure import ValueFunction
        from koreo.workflow.prepare import prepare_workflow
        from koreo.workflow.structure import Workflow

        return {
            "ValueFunction": (ValueFunction, prepare_value_function),
            "ResourceFunction": (ResourceFunction, prepare_resource_function),
            "Workflow": (Workflow, prepare_workflow),
            "FunctionTest": (FunctionTest, prepare_function_test),
        }

    async def offer(self, thing, plan):
        from koreo.cache import prepare_and_cache

        cls, preparer = self.kinds()[thing.kind]
        thing.plan = plan
        thing.version += 1
        spec = self.spec(thing, plan)
        self.ctx.log(f"offer {thing} v{thing.version} {spec}")
        given = copy.deepcopy(spec)
        out = await prepare_and_cache(
            resource_class=cls, preparer=preparer,
            metadata={"name": thing.name, "resourceVersion": f"{thing.version}"}, spec=spec,
        )  # fmt: skip
        if spec != given:
            raise Violation("spec-modified", f"{thing}: {given} became {spec}")
        bad = type(out).__name__ == "PermFail"
        if plan["broken"] == "schema" and not bad:
            raise Violation("accepted", f"{thing} {spec}: {out}")
        if not plan["broken"] and thing.kind != "FunctionTest" and type(out).__name__ in ("PermFail", "Retry"):
            raise Violation("refused", f"{thing} {spec}: {out}")

    async def delete(self, thing):
        from koreo.cache import delete_from_cache

        self.ctx.log(f"delete {thing}")
        thing.plan = None
        await delete_from_cache(resource_class=self.kinds()[thing.kind][0], cache_key=thing.name)

    # -- model ------------------------------------------------------------------

    def evaluations(self, thing, out: collections.Counter) -> bool:
        """Logic a run of `thing` evaluates; is it Ok?"""
        plan = thing.plan
        if thing.kind == "ValueFunction":
            out[(thing.name, plan["gen"])] += 1
            return True
        if thing.kind == "ResourceFunction":
            out[(thing.name, plan["gen"])] += 1
            overlays = plan["overlays"]
            refs = [self.by_key["ValueFunction", o["ref"]] for o in overlays]
            if any(o["bad"] for o in overlays) or not all(r.healthy for r in refs):
                return False
            for o, ref in zip(overlays, refs):
                if not o["skip"]:
                    out[(ref.name, ref.plan["gen"])] += 1
            return True
        if not self.ready(thing):
            return False
        # (a list: every step runs whatever the others do)
        return all([self.evaluations(self.by_key[self.chosen(s)], out) for s in plan["steps"]])

    def chosen(self, step):
        return step["ref"] if "ref" in step else step["cases"][step["chosen"]]

    def names(self, thing) -> set:
        plan = thing.plan
        if thing.kind == "ResourceFunction":
            return {("ValueFunction", o["ref"]) for o in plan["overlays"]}
        if thing.kind == "Workflow":
            return {key for s in plan["steps"] for key in ([s["ref"]] if "ref" in s else s["cases"])}
        if thing.kind == "FunctionTest":
            return {plan["target"]}
        return set()

    def usable(self, key):
        """Has something that could be run."""
        thing = self.by_key[key]
        if thing.kind == "Workflow":
            return thing.plan is not None and thing.plan["broken"] != "schema"
        return thing.healthy

    def ready(self, workflow):
        plan = workflow.plan
        if plan["broken"] or any(s["bad"] for s in plan["steps"]):
            return False
        for step in plan["steps"]:
            if "cases" in step and not step["default"]:
                pass
            keys = [step["ref"]] if "ref" in step else step["cases"]
            if not all(self.usable(k) for k in keys):
                return False
        return True

    # -- checking ---------------------------------------------------------------

    async def check(self, where):
        from koreo import registry
        from koreo.cache import get_resource_from_cache

        for thing in self.things:
            cls, _ = self.kinds()[thing.kind]
            held = get_resource_from_cache(cls, thing.name)
            if thing.plan is None:
                if held is not None:
                    raise Violation("deleted-still-cached", f"{where}: {thing}")
                continue
            if held is None:
                raise Violation("not-cached", f"{where}: {thing}")
            failed = type(held).__name__ in ("PermFail", "Retry")
            if thing.plan["broken"] == "schema" or (thing.plan["broken"] and thing.kind != "Workflow"):
                if not failed:
                    raise Violation("accepted", f"{where}: {thing} {thing.plan}: {held}")
                continue
            if failed:
                raise Violation("refused", f"{where}: {thing} {thing.plan}: {held}")
            watched = {
                (r.resource_type.__name__, r.name)
                for r in registry.get_subscriptions(registry.Resource(resource_type=cls, name=thing.name))
            }
            if missing := self.names(thing) - watched:
                raise Violation("not-watched", f"{where}: {thing} {thing.plan} does not watch {missing}")
            if thing.kind == "FunctionTest":
                await self.check_test(thing, held, where)
            else:
                await self.check_run(thing, held, where)

    async def run(self, thing, held):
        from koreo.resource_function.reconcile import reconcile_resource_function
        from koreo.value_function.reconcile import reconcile_value_function
        from koreo.workflow.reconcile import reconcile_workflow
        from . import expr as E

        evals = collections.Counter()
        boot.set_probe(lambda label, value: evals.update([(label, E.to_py(value))]))
        api = SimApi(self.ctx, self.cluster, lambda call: Plan(turns=1))
        inputs = E.to_cel({"x": 1, "on": "c0"})
        try:
            if thing.kind == "ValueFunction":
                out = await reconcile_value_function(location="check", function=held, inputs=inputs)
            elif thing.kind == "ResourceFunction":
                out = await reconcile_resource_function(
                    api=api, location="check", function=held, owner=copy.deepcopy(OWNER), inputs=inputs
                )
                out = out.outcome
            else:
                out = await reconcile_workflow(
                    api=api, workflow_key="check", owner=copy.deepcopy(OWNER), trigger=inputs, workflow=held
                )
                out = out.result
        finally:
            boot.set_probe(None)
        return evals, outcome_of(out)[0], out

    async def check_run(self, thing, held, where):
        wanted = collections.Counter()
        fine = self.evaluations(thing, wanted)
        # everything in the cluster is as wanted: what is created or changed
        # first is met in the end
        for _ in range(6):
            evals, cls, out = await self.run(thing, held)
            if evals != wanted:
                raise Violation(
                    "stale-behaviour", f"{where}: {thing} {thing.plan} evaluated {dict(evals)}, expected {dict(wanted)}: {out}"
                )
            if cls == "ok" or not fine:
                break
            await asyncio.sleep(1)
        if fine != (cls == "ok"):
            raise Violation("stale-behaviour", f"{where}: {thing} {thing.plan} is {cls}, expected ok={fine}: {out}")
        self.ctx.state(f"reload:{thing.kind}:{fine}:{len(wanted)}")
        if thing.kind != "ValueFunction":
            self.ctx.nontrivial = True

    async def check_test(self, thing, held, where):
        from koreo.function_test.run import run_function_test

        target = self.by_key[thing.plan["target"]]
        try:
            result = await run_function_test(location="check", function_test=held)
        except Exception as err:
            raise Violation("test-crashed", f"{where}: {thing} {thing.plan}: {err!r}") from err
        passed = bool(result.test_results) and all(r.test_pass for r in result.test_results)
        wanted = target.healthy
        if target.healthy and target.kind == "ValueFunction":
            wanted = target.plan["gen"] == thing.plan["expect"]
        elif target.healthy:
            # a retry either way
            wanted = not any(o["bad"] for o in target.plan["overlays"])
        if passed != wanted:
            raise Violation(
                "stale-behaviour",
                f"{where}: {thing} {thing.plan} of {target} {target.plan}: passed={passed} {result}",
            )
        self.ctx.state(f"reload:test:{target.kind}:{passed}")
        self.ctx.nontrivial = True


async def idle():
    await asyncio.sleep(120)


async def main(ctx: Ctx, sim: Reload):
    ch = sim.ch
    busy = set()

    async def actor(no):
        ops = ctx.stream(f"actor{no}")
        for _ in range(ops.int(1, 7)):
            thing = ops.pick(sim.things)
            if thing.key in busy:
                await turns(2)
                continue
            busy.add(thing.key)
            kind = ops.weighted([("offer", 6), ("delete", 3), ("replace", 2)])
            if kind == "offer":
                await sim.offer(thing, sim.new_plan(thing, ops))
            elif kind == "delete":
                await sim.delete(thing)
            else:
                await sim.delete(thing)
                await turns(ops.weighted([(0, 4), (1, 1), (3, 1)]))
                await sim.offer(thing, sim.new_plan(thing, ops))
            busy.discard(thing.key)
            if ops.chance(50):
                await turns(ops.int(1, 4))

    for thing in ch.shuffle(sim.things):
        if ch.chance(80):
            await sim.offer(thing, sim.new_plan(thing, ch))
    if ch.bool():
        await idle()
        await sim.check("after the initial offers")
    await asyncio.gather(*[actor(n) for n in range(ch.int(1, 3))])
    await idle()
    await sim.check("after the actors")
    # one thing at a time
    for thing in ch.shuffle(sim.things)[: ch.int(1, 4)]:
        kind = ch.pick(["offer", "delete", "mend"])
        if kind == "delete":
            await sim.delete(thing)
        else:
            plan = sim.new_plan(thing, ch)
            if kind == "mend":
                plan["broken"] = None
            await sim.offer(thing, plan)
        await idle()
        await sim.check(f"after {kind} {thing}")


def scenario(ctx: Ctx):
    sim = Reload(ctx)
    return ctx.run(lambda: main(ctx, sim))
