"""C13: the first false assertion decides; what can not be evaluated fails safe."""

from __future__ import annotations

import asyncio
import copy
import json

from ..core import Ctx, HarnessError, Violation
from .. import boot, expr as E
from ..cluster import Cluster, ERROR_KINDS, Plan, SimApi
from ..world import OWNER, outcome_of

PROP = "C13"
LEVEL = "exploration"
COUNTS = {"quick": 3000, "thorough": 60000}
RULE = (
    "One scenario: a ValueFunction, or a ResourceFunction in any management mode, with up to 20 "
    "preconditions and (ResourceFunction) up to 20 postconditions of every kind, whose truth, type and "
    "evaluability come from the inputs or the live object, is prepared once and possibly with a function overlay that has preconditions too, and reconciled under up to 48 "
    "input assignments, several at a time, with request latencies, API errors and hangs, objects present, "
    "absent, drifting. Non-trivial: some assertion was not true."
)
STATE_MEASURE = "distinct (function kind, phase, decisive assertion kind and position, anomalies, action)"
REAL = [
    "koreo.predicate_helpers", "koreo.cel", "koreo.value_function", "koreo.resource_function",
    "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "a message that can not be evaluated decides only when its assertion is the first false one; "
    "elsewhere either reading is accepted",
    "messages are strings",
]

VERSION = "sim.koreo.dev/v1"
KINDS = ["skip", "depSkip", "retry", "permFail", "ok"]
MESSAGES = [
    "plain", "two words", "it's", 'say "x"', "colon: yes", "{braces}", "ünï-☃", "tab\tin", "",
    "line one\nline two", "true", "null", "a/b#c", "%s", "'", "trailing ", "[1]", "assert",
]  # fmt: skip
#: what an assertion may yield instead of a boolean
JUNK = [1, 0, "true", "", None, [], {}, [True], {"a": True}, 1.5, "x"]
T, F, BAD = True, False, "bad"


class Assertion:
    def __init__(self, world, ch, index, phase):
        self.index, self.phase = index, phase
        post = phase == "post"
        self.kind = ch.weighted([("skip", 3), ("depSkip", 3), ("retry", 3), ("permFail", 3), ("ok", 2)])
        self.delay = ch.weighted([(30, 2), (0, 2), (1, 1), (99999, 1), (7, 2)])
        tag = f"{phase}{index}"
        self.tag = tag
        self.form = ch.weighted([
            ("bit", 5), ("not", 2), ("and", 1), ("cond", 1), ("size", 1), ("eq", 2), ("all", 1),
            ("in", 1), ("has", 1), ("true", 1), ("false", 1), ("any", 6), ("div", 2), ("live", 3 if post else 0),
            ("crash", 2), ("regex", 1), ("json", 1), ("int", 1), ("since", 1),
        ])  # fmt: skip
        self.message_form = ch.weighted([("static", 4), ("bare", 1), ("expr", 3), ("fragile", 2), ("crash", 1)])
        self.text = ch.pick(MESSAGES)
        self.root = f"inputs.{tag}"

    def spec(self):
        r = self.root
        text = {
            "bit": f"={r}.v",
            "not": f"=!{r}.n",
            "and": f"={r}.v && true",
            "cond": f"={r}.v ? true : false",
            "size": f"=size({r}.s) > 0",
            "eq": f"={r}.i == 1",
            "all": f"={r}.l.all(q, q > 0)",
            "in": f"=1 in {r}.l",
            "has": f"=has({r}.o.key)",
            "true": "=true",
            "false": "=1 > 2",
            "any": f"={r}.any",
            "div": f"=10 / {r}.d == 1",
            "live": f"=resource.live.{self.tag}",
            # celpy raises something else than its own error there
            "crash": f"=has({r}.zone) ? duration('1s').getHours({r}.zone) == 1 : {r}.v",
            "regex": f"='ab'.matches({r}.re)",
            "json": f"=from_json({r}.json)",
            "int": f"=int({r}.num) == 1",
            "since": f"=timestamp({r}.time) > timestamp('2020-01-01T00:00:00Z')",
        }[self.form]
        return {"assert": text, self.kind: self.body()}

    def body(self):
        if self.kind == "ok":
            return {}
        if self.message_form == "static":
            text = f"{self.tag}: {self.text}"
        elif self.message_form == "bare":
            text = self.text
        elif self.message_form == "expr":
            text = f"='{self.tag}-' + {self.root}.m"
        elif self.message_form == "crash":
            zone = f"{self.root}.mzone"
            text = f"='{self.tag}-' + (has({zone}) ? string(duration('1s').getHours({zone})) : {self.root}.m)"
        else:
            text = f"='{self.tag}-' + {self.root}.fm"
        out = {"message": text}
        if self.kind == "retry":
            out["delay"] = self.delay
        return out

    def assign(self, ch, mood):
        """(inputs, live, truth, message or BAD)"""
        want = ch.weighted(
            [(T, 9), (F, 1)] if mood == "mostly" else [(T, 3), (F, 2)] if mood == "mixed" else [(T, 1)]
        )
        anomalies = mood != "true" and ch.chance(6 if mood == "mostly" else 12)
        truth, f = want, self.form
        out = {"m": ch.pick(["m1", "m2", "", "ü"]), "v": want, "n": not want}
        out["s"] = "x" if want else ""
        out["i"] = 1 if want else 2
        out["l"] = [1, 2] if want else [0]
        out["o"] = {"key": 0} if want else {"other": 0}
        out["d"] = 10 if want else 3
        out["any"] = want
        out["re"] = "^a" if want else "^b"
        out["json"] = "true" if want else "false"
        out["num"] = "1" if want else "2"
        out["time"] = "2021-01-01T00:00:00Z" if want else "2019-01-01T00:00:00Z"
        live = want
        if f == "true":
            truth = T
        elif f == "false":
            truth = F
        elif anomalies and f != "has":  # celpy: has() of anything missing is false
            truth = BAD
            if f == "any":
                out["any"] = ch.pick(JUNK)
            elif f == "div":
                out["d"] = 0
            elif f in ("bit", "and", "cond"):
                del out["v"]
            elif f == "not":
                del out["n"]
            elif f == "live":
                live = ch.pick(JUNK)
            elif f == "eq":
                out["i"] = "1"
            elif f == "size":
                out["s"] = 7
            elif f in ("all", "in"):
                if f == "all" and ch.bool():
                    out["l"] = 7
                else:
                    del out["l"]
            elif f == "crash":
                out["zone"] = ch.pick(["nowhere", "UTC"])
            elif f == "regex":
                out["re"] = "["
            elif f == "json":
                out["json"] = ch.pick(["{", "", "1", "null"])
            elif f == "int":
                out["num"] = "x"
            elif f == "since":
                out["time"] = "later"
        message = f"{self.tag}: {self.text}" if self.message_form == "static" else self.text
        if self.message_form == "expr":
            message = f"{self.tag}-{out['m']}"
        elif self.message_form == "crash":
            message = f"{self.tag}-{out['m']}"
            if ch.chance(20):
                out["mzone"] = "nowhere"
                message = BAD
        elif self.message_form == "fragile":
            if ch.chance(80):
                out["fm"] = "f"
                message = f"{self.tag}-f"
            else:
                message = BAD
        if self.kind == "ok":
            message = None
        return out, live, truth, message


def decide(assertions, truths, messages):
    """('go',) | ('stop', assertion, message) | ('permfail',) | ('open', first)"""
    if BAD in truths:
        return ("permfail",)
    false = [i for i, t in enumerate(truths) if t is F]
    if not false:
        return ("go-or-permfail",) if BAD in messages else ("go",)
    first = false[0]
    if messages[first] is BAD:
        return ("permfail",)
    later = any(m is BAD for i, m in enumerate(messages) if i != first)
    if assertions[first].kind == "ok":
        return ("go-or-permfail",) if later else ("go",)
    return ("stop", assertions[first], messages[first], later)


class Program:
    def __init__(self, ctx: Ctx):
        self.ctx = ctx
        self.ch = ch = ctx.stream("gen")
        self.is_rf = ch.chance(55)
        most = ch.weighted([(4, 5), (1, 2), (9, 2), (20, 1)])
        self.pre = [Assertion(self, ch, i, "pre") for i in range(ch.int(0 if self.is_rf else 1, most))]
        self.post = []
        if self.is_rf:
            self.post = [Assertion(self, ch, i, "post") for i in range(ch.int(0 if self.pre else 1, most))]
        self.over = []
        if self.is_rf and ch.chance(35):
            self.over = [Assertion(self, ch, i, "over") for i in range(ch.int(1, 4))]
        self.no_return = ch.chance(12)
        self.no_locals = ch.chance(12)
        self.mode = ch.weighted([("patch", 4), ("recreate", 1), ("never", 1), ("readonly", 1), ("delete", 1), ("nocreate", 1)])
        self.template = ch.chance(20)
        self.lookup = ch.chance(15)
        self.cluster = Cluster(ctx)
        self.cluster.define(VERSION, "Widget", "widgets")

    def spec(self):
        spec = {}
        if self.pre:
            spec["preconditions"] = [a.spec() for a in self.pre]
        if not self.no_locals:
            spec["locals"] = {"b": "=simprobe('body:locals', 5)"}
        if not self.is_rf:
            if not self.no_return:
                spec["return"] = {"r": "=simprobe('body:return', inputs.who)"}
            return spec
        api = {
            "apiVersion": VERSION, "kind": "Widget", "plural": "widgets", "namespace": "ns-a",
            "name": "=simprobe('body:name', inputs.who)", "owned": False,
        }  # fmt: skip
        if self.lookup:
            del api["plural"]
        if self.mode == "readonly":
            api["readonly"] = True
        if self.mode == "delete":
            api["deleteIfExists"] = True
        spec["apiConfig"] = api
        if self.template:
            spec["resourceTemplateRef"] = {"name": "=simprobe('body:template', 'tmpl')"}
        else:
            spec["resource"] = {"want": "=simprobe('body:resource', 1)"}
        if self.over:
            spec["overlays"] = [{
                "overlayRef": {"kind": "ValueFunction", "name": "over"},
                "inputs": {a.tag: f"=inputs.{a.tag}" for a in self.over} | {"who": "=inputs.who"},
            }]
        if self.mode == "nocreate":
            spec["create"] = {"enabled": False}
        if self.mode in ("patch", "recreate"):
            spec["update"] = {self.mode: {"delay": 17}}
        elif self.mode == "never":
            spec["update"] = {"never": {}}
        if self.post:
            spec["postconditions"] = [a.spec() for a in self.post]
        if not self.no_return:
            spec["return"] = {"r": "=simprobe('end:return', inputs.who)"}
        return spec

    async def prepare(self):
        from koreo.cache import prepare_and_cache
        from koreo.resource_function.prepare import prepare_resource_function
        from koreo.resource_function.structure import ResourceFunction
        from koreo.resource_template.prepare import prepare_resource_template
        from koreo.resource_template.structure import ResourceTemplate
        from koreo.value_function.prepare import prepare_value_function
        from koreo.value_function.structure import ValueFunction

        spec = self.spec()
        self.ctx.log(f"define {json.dumps(spec, sort_keys=True)}")
        if self.template:
            await prepare_and_cache(
                resource_class=ResourceTemplate, preparer=prepare_resource_template,
                metadata={"name": "tmpl", "resourceVersion": "1"},
                spec={"template": {"apiVersion": VERSION, "kind": "Widget", "want": 1}},
            )  # fmt: skip
        if self.over:
            await prepare_and_cache(
                resource_class=ValueFunction, preparer=prepare_value_function,
                metadata={"name": "over", "resourceVersion": "1"},
                spec={
                    "preconditions": [a.spec() for a in self.over],
                    "return": {"want": "=simprobe('over:return', inputs.who) == '' ? 0 : 1"},
                },
            )  # fmt: skip
        cls, preparer = (
            (ResourceFunction, prepare_resource_function) if self.is_rf else (ValueFunction, prepare_value_function)
        )
        out = await prepare_and_cache(
            resource_class=cls, preparer=preparer,
            metadata={"name": "f", "resourceVersion": "1"}, spec=copy.deepcopy(spec),
        )  # fmt: skip
        if type(out).__name__ in ("PermFail", "Retry"):
            raise Violation("not-prepared", f"{out} {json.dumps(spec)}")
        self.function = out

    def assignment(self, number):
        ch = self.ch
        mood = ch.weighted([("mostly", 3), ("mixed", 3), ("true", 2)])
        out = {"who": f"w{number}", "pre_decided": 0}
        live = {}
        plan = {"pre": [], "over": [], "post": []}
        for phase, assertions in (("pre", self.pre), ("over", self.over), ("post", self.post)):
            for a in assertions:
                values, now, truth, message = a.assign(ch, "true" if phase == "pre" and mood == "mixed" and ch.chance(70) else mood)
                out[a.tag] = values
                live[a.tag] = now
                plan[phase].append((truth, message))
        return out, live, plan


async def evaluate(world: Program, number, inputs, live, plan, situation, net):
    """One evaluation: real outcome, probes, calls."""
    from koreo.resource_function.reconcile import reconcile_resource_function
    from koreo.value_function.reconcile import reconcile_value_function

    ctx = world.ctx
    seen: list[str] = []
    cel_inputs = E.to_cel(copy.deepcopy(inputs))
    if not world.is_rf:
        boot.set_probe(lambda label, value: seen.append(label))
        out = await reconcile_value_function(location="here", function=world.function, inputs=cel_inputs)
        return out, seen, None, False
    faulted = False

    def policy(call):
        nonlocal faulted
        p = Plan(turns=net.below(4))
        if net.chance(40):
            p.before, p.after = net.below(30) / 100, net.below(30) / 100
        if net.chance(8):
            p.fault, p.applied = net.pick(ERROR_KINDS), net.bool()
            faulted = True
        return p

    api = SimApi(ctx, world.cluster, policy)
    key = (VERSION, "widgets", "ns-a", inputs["who"])
    if situation != "absent":
        world.cluster.put(key, {
            "apiVersion": VERSION, "kind": "Widget",
            "metadata": {"name": inputs["who"], "namespace": "ns-a"},
            "want": 1 if situation == "met" else 2, "live": live,
        })  # fmt: skip
    world.probes[inputs["who"]] = seen
    try:
        result = await reconcile_resource_function(
            api=api, location="here", function=world.function, owner=copy.deepcopy(OWNER), inputs=cel_inputs
        )
    except Exception:
        if not faulted:
            raise
        return None, seen, api, True  # the Workflow contains these (C09)
    return result.outcome, seen, api, faulted


def scenario(ctx: Ctx):
    return ctx.run(lambda: main(ctx))


async def main(ctx: Ctx):
    world = Program(ctx)
    await world.prepare()
    act, net = ctx.stream("act"), ctx.stream("net")
    world.probes = {}
    rounds = act.int(4, 12)
    number = 0
    for _ in range(rounds):
        batch = []
        for _ in range(act.weighted([(1, 3), (2, 2), (4, 1)])):
            inputs, live, plan = world.assignment(number)
            situation = act.weighted([("met", 6), ("absent", 1), ("drifted", 1)])
            if world.mode == "delete":
                situation = act.pick(["absent", "met"])
            batch.append((number, inputs, live, plan, situation))
            number += 1
        if world.is_rf:
            # probes tell the concurrent evaluations apart by who is asking
            boot.set_probe(lambda label, value: route(world, label, value))
            results = await asyncio.gather(*[evaluate(world, *item, net) for item in batch])
            boot.set_probe(None)
        else:
            results = [await evaluate(world, *item, net) for item in batch]
        alone = len(batch) == 1
        for item, result in zip(batch, results):
            judge(world, item, result, alone)


def route(world, label, value):
    value = E.to_py(value)
    world.marks = getattr(world, "marks", [])
    if isinstance(value, str) and value in world.probes:
        world.probes[value].append(label)
    else:
        for seen in world.probes.values():
            seen.append("?" + label)


def judge(world: Program, item, result, alone):
    number, inputs, live, plan, situation = item
    out, seen, api, faulted = result
    ctx = world.ctx
    cls, value, delay, message = outcome_of(out)
    if out is None and faulted:
        cls = "raised"
    calls = [] if api is None else api.calls
    lookups = [] if api is None else api.lookups
    mine = [s for s in seen if not s.startswith("?") or alone]
    mine = [s.lstrip("?") for s in mine]
    where = (
        f"evaluation {number} {situation} inputs {json.dumps(inputs, sort_keys=True)} "
        f"plan {plan} -> {cls} {value} delay={delay} message={message!r} evaluated {mine} calls {calls}"
    )
    ctx.log(where)
    ctx.evaluations += 1
    pre = decide(world.pre, [t for t, _ in plan["pre"]], [m for _, m in plan["pre"]])
    post = decide(world.post, [t for t, _ in plan["post"]], [m for _, m in plan["post"]])
    over = decide(world.over, [t for t, _ in plan["over"]], [m for _, m in plan["over"]])
    kind = "rf" if world.is_rf else "vf"
    ctx.state(f"{kind}:pre:{describe(pre)}:over:{describe(over)}:post:{describe(post)}:{situation}:{world.mode if world.is_rf else ''}")
    if any(t is not T for t, _ in (*plan["pre"], *plan["over"], *plan["post"])):
        ctx.nontrivial = True

    def stopped(decision):
        """Does the outcome agree with a stopping decision?"""
        if decision[0] == "permfail":
            return cls == "permfail"
        _, a, text, loose = decision
        if loose and cls == "permfail":
            return True
        return (
            cls == a.kind.lower() and message == text and (a.kind != "retry" or delay == a.delay)
        )

    if pre[0] in ("stop", "permfail"):
        if not stopped(pre):
            raise Violation("precondition-outcome", f"expected {describe(pre)}: {where}")
        if calls or lookups:
            raise Violation("cluster-touched", f"{lookups} {where}")
        if mine:
            raise Violation("body-evaluated", where)
        return
    if pre[0] == "go-or-permfail" and cls == "permfail" and not mine and not calls:
        return
    # evaluation goes on
    if not world.is_rf:
        if cls != "ok":
            raise Violation("not-continued", where)
        wanted = {"r": inputs["who"]} if not world.no_return else None
        if wanted is not None and not E.same(value, wanted):
            raise Violation("value", where)
        if not world.no_return and "body:return" not in mine:
            raise Violation("body-not-evaluated", where)
        return
    if "body:name" not in mine:
        raise Violation("body-not-evaluated", where)
    if not calls and not (world.lookup and lookups):
        raise Violation("cluster-not-asked", where)
    if faulted:
        return
    if not api.calls:
        return
    materialised = world.mode not in ("readonly", "delete") and not (
        situation == "absent" and world.mode == "nocreate"
    )
    if materialised and world.over:
        if over[0] in ("stop", "permfail"):
            if not stopped(over):
                raise Violation("overlay-outcome", f"expected {describe(over)}: {where}")
            if len(calls) != 1 or "over:return" in mine or "end:return" in mine:
                raise Violation("overlay-body", where)
            return
        if over[0] == "go-or-permfail" and cls == "permfail" and "over:return" not in mine:
            return
        if "over:return" not in mine:
            raise Violation("body-not-evaluated", where)
    goes_on = {
        "met": world.mode != "delete",
        "absent": world.mode == "delete",
        "drifted": world.mode in ("never", "readonly"),
    }[situation]
    if not goes_on:
        if cls != "retry" or "end:return" in mine:
            raise Violation("not-waiting", where)
        return
    if situation == "absent" and any(a.form == "live" for a in world.post):
        post = ("permfail",)
    if post[0] in ("stop", "permfail"):
        if not stopped(post):
            raise Violation("postcondition-outcome", f"expected {describe(post)}: {where}")
        if "end:return" in mine:
            raise Violation("body-evaluated", where)
        return
    if post[0] == "go-or-permfail" and cls == "permfail" and "end:return" not in mine:
        return
    if cls != "ok":
        raise Violation("not-continued", f"after postconditions: {where}")
    if not world.no_return and not E.same(value, {"r": inputs["who"]}):
        raise Violation("value", where)


def describe(decision):
    if decision[0] == "stop":
        return f"{decision[1].kind}@{decision[1].index}{'~' if decision[3] else ''}"
    return decision[0]
