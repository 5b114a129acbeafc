"""C10: an expression that fails is a PermFail naming the place; nothing leaks."""

from __future__ import annotations

import json

from ..core import Ctx, HarnessError, Violation
from .. import expr as E
from ..cluster import Plan, SimApi
from ..rfsim import Options as RfOptions, RfWorld, history
from ..world import (
    Interp, Options, Out, Pred, RF, Refused, VF, WF, World, interpret, moods, outcome_of, run_pass, same,
)  # fmt: skip

PROP = "C10"
LEVEL = "exploration"
COUNTS = {"quick": 6000, "thorough": 120000}
RULE = (
    "One scenario: one expression-bearing field (precondition, its message, locals, name, namespace, "
    "template name, resource, overlay, overlay inputs and skipIf, overlay function, create overlay, "
    "postcondition, return; step inputs, skipIf, forEach, switchOn, state) of a generated program gets "
    "a failing sub-expression at any depth, always or for some inputs only. ResourceFunctions are "
    "reconciled through histories with an API server that also fails; Workflows once, under random "
    "interleavings. Non-trivial: the failing expression was reached."
)
STATE_MEASURE = "distinct (kind of function, poisoned field, shape of the failure, outcome, action)"
REAL = [
    "koreo.cel", "koreo.predicate_helpers", "koreo.value_function", "koreo.resource_function",
    "koreo.workflow", "koreo.resource_template", "koreo.cache", "kr8s object and API client classes",
    "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "failures celpy itself turns into values (size([1/0]), has(nosuch.x), err == null, a failing member "
    "of a list that is indexed elsewhere) are not failures to evaluate",
    "whether the message of a true assertion is evaluated is left open",
    "an API error while patching or deleting is not an expression failure",
]

#: expressions without a value; `inputs` has n, s, b, l and id
CATALOGUE = """
1 / 0 ¦ 5 % 0 ¦ [1, 2][7] ¦ {'a': 1}.zz ¦ {'a': 1}['zz'] ¦ int('x') ¦ double('x') ¦ bool('x') ¦ uint(-1)
lower(7) ¦ split('a', '') ¦ split(5, ',') ¦ split_first('a', '') ¦ split_last('a','')
split_index('a', ',', 9) ¦ split_index('a', ',', 'x') ¦ from_json('{') ¦ from_json(5)
[2, 0].map(q, 10 / q) ¦ [1].map(q, nosuch) ¦ nosuch ¦ nosuch.a.b ¦ inputs.nosuch ¦ inputs['nosuch']
inputs.l[99] ¦ inputs.n.deeper ¦ inputs.s['x'] ¦ inputs.l.nope ¦ inputs.l['x'] ¦ timestamp('x')
duration('x') ¦ 9223372036854775807 + 1 ¦ 9223372036854775807 * 2 ¦ b64decode('/w==') ¦ b64encode(5)
b64encode({}) ¦ to_ref({}) ¦ to_ref(5) ¦ self_ref({}) ¦ self_ref({'apiVersion': 'v1'}) ¦ group_ref({})
kindless_ref({}) ¦ config_connect_ready(5) ¦ overlay({'a': 1}, {'a': 1 / 0}) ¦ overlay({'a': 1 / 0}, {})
overlay({}, 5) ¦ overlay({}) ¦ flatten([1]) ¦ flatten(5) ¦ flatten([[1], [1 / 0]]) ¦ flatten([1 / 0])
to_json(1 / 0) ¦ to_json({'a': [1 / 0]}) ¦ string(1 / 0) ¦ size(1 / 0) ¦ size(5)
[1, [2, {'k': 1 / 0}]] ¦ {'k': [1 / 0]} ¦ {'k': {'j': nosuch}} ¦ -'a' ¦ 'a' + 1 ¦ 1 + 'a' ¦ 1 < 'a'
{} + {} ¦ 'a' - 'b' ¦ matches('a', '(') ¦ 'a'.startsWith(5) ¦ 'a' in 5 ¦ {1 / 0: 2}
replace('a', 5, 'b') ¦ replace('a', 'a') ¦ strip('a', 5) ¦ strip(5, 'a') ¦ rstrip('a', 5) ¦ nosuchfn(1)
inputs.s.nosuchmethod() ¦ nosuchfn(1 / 0) ¦ {'a': 1}.map(q, q / 0) ¦ [1].map(q, [q].map(r, r / 0))
(true ? 1 / 0 : 1) ¦ (1 / 0 > 1 ? 1 : 2) ¦ (1 / 0) + 1 ¦ -(1 / 0) ¦ [1, 2][1 / 0] ¦ {'a': 1}[1 / 0] ¦ (1 / 0).x
lower(1 / 0) ¦ dyn(1 / 0) ¦ timestamp('2024-01-01T00:00:00Z') + 1 ¦ int('99999999999999999999')
99999999999999999999 ¦ [].x ¦ ''.x ¦ null.x ¦ null + 1 ¦ null[0] ¦ [null][0].x ¦ inputs.b.x ¦ lower(null)
to_json(nosuch) ¦ split(null, ',') ¦ self_ref(null) ¦ to_ref(null) ¦ from_json('null').x
from_json('[1,]') ¦ b64decode(null) ¦ b64decode('YQ') ¦ 'a'.lower().nope ¦ {'a': 1}.a.b ¦ {}['']
[[1][5]] ¦ [1, 2].map(q, q.x) ¦ [1, 2].map(q, inputs.l[q + 90]) ¦ [1].map(q, {'v': q / 0}) ¦ int(1.5e300)
resource.nosuch.at.all ¦ locals.nosuch ¦ parent.nosuch.x ¦ value.nosuch.x
"""
CATALOGUE = [x.strip() for line in CATALOGUE.strip().splitlines() for x in line.split("¦")]
#: which make celpy raise something else than an evaluation error
RAISERS = """
duration('1s').getHours('nowhere') ¦ (5).map(q, q) ¦ (7).filter(q, q) ¦ null.map(q, q) ¦ true.all(q, q) ¦ 'a'.reduce(a, b, c)
duration('1s').map(q, q) ¦ {} + {} ¦ (1.5).exists_one(q, 1 / 0) ¦ (3).reduce(a, b, a + b, 0) ¦ (7).min()
[duration('1s').getHours('nowhere')] ¦ [[duration('1s')].map(q, q.getHours('nowhere'))]
""".strip()
RAISERS = [x.strip() for line in RAISERS.splitlines() for x in line.split("¦")]
WRAPS = """
[{P}] ¦ [1, 'x', {P}] ¦ {'k': {P}} ¦ {'k': 1, 'j': [{'deep': {P}}]} ¦ [[[{P}]]] ¦ ({P}) ¦ [1, 2].map(q, {P})
[1].map(q, {'v': {P}}) ¦ {'m': [[1].map(q, [q, {P}])]} ¦ (true ? {P} : 1) ¦ (1 > 2 ? 1 : [{P}])
overlay({'a': 1}, {'a': {P}}) ¦ overlay({'a': {P}}, {'b': 1}) ¦ overlay({'a': {'c': 1}}, {'a': {'b': [{P}]}})
flatten([[1], [{P}]]) ¦ [1] + [{P}] ¦ dyn({P}) ¦ [{P}].map(q, q) ¦ [{P}] + [2]
to_json([{P}]) ¦ to_json({'a': {P}}) ¦ config_connect_ready({'status': {'x': {'y': {P}}}})
to_ref({'apiVersion': 'v1', 'kind': 'K', 'name': 'n', 'junk': {P}}) ¦ to_ref({'kind': 'K', 'external': 'n', 'junk': {'k': {P}}})
self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'name': 'n', 'namespace': 'm', 'junk': {P}}})
group_ref({'apiVersion': 'a/v1', 'kind': 'K', 'name': 'n', 'junk': [{'a': {P}}]})
kindless_ref({'apiVersion': 'v1', 'kind': 'K', 'name': 'n', 'junk': {'a': {P}}})
""".strip()
#: which can not even be parsed
BROKEN = """
1 + ¦ (1 ¦ [1, ¦ {'a': } ¦ 'open ¦ inputs..n ¦ 1 2 ¦ a b c ¦ inputs.n ? 1 ¦ ) ¦ @ ¦ 5.map(q, q) ¦ inputs.[0] ¦ {'a' 1} ¦ ==
in ¦ inputs.n + ¦ f(,) ¦ [1 2] ¦ inputs['x' ¦ "a' ¦ 1 ++ 2 ¦ , ¦ inputs.s matches 'a' ¦ ${inputs.n} ¦ !! ¦ inputs.for.x ¦ #
""".strip()
BROKEN = [x.strip() for line in BROKEN.splitlines() for x in line.split("¦")]
#: which can be parsed in the wrong place
SPLICES = ["", " ", "\n", "==", "1, 2", ", 1", "1], [2", "1}, {'a': 2", "'a': 1", "1) + (2", "// nothing", '1, "k": 2', "1 : 2", "1, "]
WRAPS = [x.strip() for line in WRAPS.splitlines() for x in line.split("¦")]
#: what becomes of an error that leaked as text
TRACES = ("CELEvalError", "divide by zero", "modulus or divide", "no such member", "undeclared reference")


class Poison:
    """A failing expression and where it was put."""

    def __init__(self, ctx: Ctx):
        self.ctx, self.ch = ctx, ctx.stream("poison")
        self.site = self.tokens = self.depth = None
        self.conditional = False
        self.hits = []  # filled while the reference interpreter runs
        self.here = lambda: None
        self.in_overlay_function = False
        self.broken = False  # it is the syntax that is wrong

    def text(self):
        ch = self.ch
        if self.broken:
            self.depth = "syntax"
            return ch.pick(BROKEN if ch.chance(40) else SPLICES)
        text = ch.pick(RAISERS if ch.chance(12) else CATALOGUE)
        depth = ch.weighted([(0, 4), (1, 4), (2, 2), (3, 1)])
        for _ in range(depth):
            text = ch.pick(WRAPS).replace("{P}", text)
        self.depth = depth
        # an overlay function is not even called without the inputs it names
        return text.replace("inputs.nosuch", "nosuch").replace("inputs['nosuch']", "nosuch") if self.in_overlay_function else text

    def node(self, type_=None, env=()):
        """A node that fails; with `env`, perhaps only for some inputs."""
        ch = self.ch
        node = ("fails", self.text(), self)
        bools = [p for p in env if p[0] == "bool"]
        self.conditional = bool(bools) and ch.chance(30) and not self.broken
        if self.conditional:
            _, root, keys = ch.pick(bools)
            safe = ("lit", "safe" if type_ == "str" else E.Gen(ch, []).literal(type_ or "int"))
            node = ("cond", ("path", root, tuple((k, 0) for k in keys)), node, safe)
        return node

    def hit(self):
        self.hits.append(self.here())

    def put(self, structure, type_=None, env=()):
        """Poison some place of a structure (in place)."""
        ch = self.ch
        spots = []

        def visit(value):
            if isinstance(value, dict):
                for k, v in value.items():
                    if not str(k).startswith("x-koreo"):
                        spots.append((value, k))
                        visit(v)
            elif isinstance(value, list):
                for i, v in enumerate(value):
                    spots.append((value, i))
                    visit(v)

        visit(structure)
        leaves = [(c, k) for c, k in spots if not isinstance(c[k], (dict, list))]
        leaf = E.X(self.node(type_, env))
        for _ in range(ch.weighted([(0, 5), (1, 2), (2, 1)])):
            leaf = {"deep": [1, leaf]} if ch.bool() else [{"k": leaf, "z": "z"}]
        if leaves and not self.conditional and ch.chance(65):
            container, key = ch.pick(leaves)
            container[key] = leaf
            return
        maps = [structure] + [c[k] for c, k in spots if isinstance(c[k], dict)]
        ch.pick(maps)["poisoned"] = leaf


def clean_of_errors(what, value, path=""):
    """No error object anywhere."""
    if isinstance(value, BaseException):
        raise Violation("error-leaked", f"{what}{path}: {value!r}"[:300])
    if isinstance(value, dict):
        if "$error" in value:
            raise Violation("error-leaked", f"{what}{path}: {value}"[:300])
        for k, v in value.items():
            clean_of_errors(what, k, f"{path}<key>")
            clean_of_errors(what, v, f"{path}/{k}")
    elif isinstance(value, (list, tuple)):
        for i, v in enumerate(value):
            clean_of_errors(what, v, f"{path}/{i}")
    elif isinstance(value, str):
        if any(t in value for t in TRACES):
            raise Violation("error-leaked", f"{what}{path}: {value!r}"[:300])


def named(tokens, *texts):
    text = " ".join(t or "" for t in texts).lower()
    return any(t.lower() in text for t in tokens)


# --------------------------------------------------------------------------
# one ResourceFunction, a history of passes
# --------------------------------------------------------------------------

RF_OPTIONS = dict(
    fail=0, null=0, attack=0, readonly=6, delete_if_exists=4, no_create=5, pre=25, post=35, overlays=55,
    create_overlay=35, template=25, directives=25, api_fault=12, cancel=2, twin=0, steps=(2, 5),
    actions=(("inputs", 6), ("delete", 4), ("nothing", 4), ("decorate", 2), ("drift", 2)),
)  # fmt: skip


def poison_definition(poison: Poison, d):
    ch = poison.ch
    ienv = [("bool", "inputs", ("b",))]
    sites = [("locals", 2), ("name", 2), ("pre", 2), ("message", 2), ("ret", 3), ("post", 2)]
    sites += [("namespace", 2 if d.namespaced else 0), ("delete-message", 0)]
    sites += [("template", 4 if d.template else 0), ("target", 0 if d.template else 5)]
    sites += [("overlay", 8 if d.overlays else 0), ("create", 6 if d.create_overlay else 0)]
    site = ch.weighted(sites)
    poison.site = site
    poison.tokens = {
        "locals": ["locals"], "name": ["apiConfig"], "namespace": ["apiConfig"],
        "pre": ["precondition"], "message": ["precondition"], "ret": ["return"], "post": ["postcondition"],
        "template": ["resourceTemplateRef"], "target": ["spec.resource"], "create": ["create"],
    }.get(site)  # fmt: skip
    if site == "locals":
        poison.put(d.locals, None, ienv)
    elif site == "name":
        d.name_node = poison.node("str", ienv)
    elif site == "namespace":
        d.ns_node = poison.node("str", ienv)
    elif site == "template":
        node = poison.node("str", ienv)
        if poison.conditional:
            node = (*node[:3], ("lit", "t-a"))
        d.template = node
    elif site in ("pre", "post"):
        preds = d.preds if site == "pre" else d.posts
        pred = Pred(poison.node("bool", ienv), ch.pick(["skip", "depSkip", "retry", "permFail", "ok"]), 5, "here")
        if poison.conditional:
            pred.node = (*pred.node[:3], ("lit", True))
        preds.insert(ch.below(len(preds) + 1), pred)
    elif site == "message":
        node = ("fails", poison.text(), poison)
        first = FailingMessage(("lit", False) if ch.bool() else ("not", ("path", "inputs", (("b", 0),))),
                               ch.pick(["skip", "depSkip", "retry", "permFail"]), 5, node)
        if ch.bool():
            d.preds = [first]
        else:
            d.posts, poison.tokens = [first], ["postcondition"]
    elif site == "target":
        poison.put(d.target, None, ienv)
    elif site == "ret":
        poison.put(d.ret, None, ienv)
    elif site == "create":
        poison.put(d.create_overlay, None, ienv)
    elif site == "overlay":
        i = ch.below(len(d.overlays))
        entry = d.overlays[i]
        poison.tokens = [f"overlays[{i}]"]
        if ch.chance(20):
            poison.site = "overlay-skip"
            entry["skip"] = poison.node("bool", ienv)
        elif entry["inline"] is not None:
            poison.put(entry["inline"], None, ienv)
        else:
            # a broken overlay function is not there at all
            where = ch.pick(["inputs", "ret", "pre"]) if not poison.broken else "inputs"
            poison.site = f"overlay-{where}"
            poison.in_overlay_function = where != "inputs"
            if where == "inputs":
                poison.put(entry["inputs"], None, ienv)
            elif where == "ret":
                poison.put(entry["vf"]["ret"], None, ienv)
            else:
                entry["vf"]["preds"].insert(0, Pred(poison.node("bool", ienv), "skip", 5, "here"))


class FailingMessage(Pred):
    """The assertion is fine; saying why it is false is not."""

    def spec(self):
        out = super().spec()
        out[self.kind]["message"] = E.expr(self.marker)
        return out

    def passed(self):
        raise E.Open("whether it is evaluated is up to celpy")

    def decide(self):
        self.marker[2].hit()
        return Out("permfail")


class PoisonedWorld(RfWorld):
    def __init__(self, ctx, opts, poison):
        super().__init__(ctx, opts)
        self.poison = poison

    def mutate(self, definition):
        poison_definition(self.poison, definition)


def resource_function(ctx: Ctx):
    poison = Poison(ctx)
    poison.broken = poison.ch.chance(14)
    world = PoisonedWorld(ctx, RfOptions(**RF_OPTIONS), poison)

    def judge(rec):
        out = rec.outcome
        where = f"{poison.site}: {rec.where()}"
        ctx.state(f"rf:{poison.site}:{rec.action}:{rec.cls}:{poison.depth}:{poison.conditional}")
        if rec.exc is not None:
            if rec.clean:
                raise Violation("escaped", f"{rec.exc!r} {where}")
        else:
            if rec.cls == "ok":
                clean_of_errors("result", out)
            clean_of_errors("resource id", rec.resource_id)
        for call in rec.calls:
            clean_of_errors("request", call.body)
        if rec.exc is not None or rec.action in (None, "open") or not (rec.clean or rec.action == "unevaluable"):
            return
        expected = rec.expected
        if expected is None:
            return
        if poison.broken and rec.cls == "permfail" and expected.cls != "permfail":
            # it is not reached, but has been seen
            if rec.mutations:
                raise Violation("changed-the-cluster", where)
            return
        if rec.cls != expected.cls:
            raise Violation("outcome", f"{where} {rec.message} expected {expected}")
        if expected.cls == "ok" and not E.same(rec.value, expected.value):
            raise Violation("value", f"{where} {rec.value} expected {expected.value}")
        if expected.cls != "permfail":
            return
        if rec.action in ("unevaluable", "precondition") and rec.mutations:
            raise Violation("changed-the-cluster", where)
        here = rec.action in ("unevaluable", "precondition") or poison.site in ("post", "message", "ret")
        if expected.marker is None and rec.fails_here and here:
            ctx.nontrivial = True
            if not named(poison.tokens, rec.message, out.location):
                raise Violation("not-named", f"{where} {poison.tokens}: {rec.message} at {out.location}")

    async def go():
        try:
            await history(world, watched(judge, poison), settle=False)
        except Refused as refused:
            refusal(ctx, poison, refused)

    return ctx.run(go)


def refusal(ctx, poison, refused):
    """A definition which can not be parsed may be refused; nothing else may."""
    if not poison.broken:
        raise refused
    ctx.nontrivial = True
    ctx.state(f"refused:{poison.site}:{type(refused.outcome).__name__}")
    cls, _, _, message = outcome_of(refused.outcome)
    if cls != "permfail":
        raise Violation("outcome", f"{poison.site}: {cls} {message} {refused.msg}") from None
    if poison.tokens and not named(poison.tokens, message, refused.outcome.location):
        raise Violation(
            "not-named", f"{poison.tokens}: {message} at {refused.outcome.location} {refused.msg}"
        ) from None


def watched(judge, poison):
    """Notes whether the reference met the failing expression in this pass."""
    seen = [0]

    def check(rec):
        rec.fails_here = len(poison.hits) > seen[0]
        # decide again: nothing else must have been counted
        before = len(poison.hits)
        rec.definition.expect(rec)
        rec.fails_here = len(poison.hits) > before
        judge(rec)

    return check


# --------------------------------------------------------------------------
# a Workflow
# --------------------------------------------------------------------------

WF_OPTIONS = dict(
    fail_pct=0, vf_nonok_pct=8, skip_pct=10, cond_pct=100, state_pct=75, foreach_pct=25, switch_pct=20,
    sub_pct=15, max_steps=5, readonly_pct=5, create_pct=95, post_pct=10, no_return_pct=0, plain_pct=0, broken_pct=0, long_pct=0,
    situations=("match", "match", "match", "decorated", "absent", "drift"),
)  # fmt: skip


def poison_world(poison: Poison, world: World):
    ch = poison.ch
    ienv = [("bool", "inputs", ("b",))]
    penv = [("bool", "parent", ("b",))]
    steps = [(w, s) for w in world.workflows for s in w.steps]
    functions = world.functions
    poison.function = poison.step = None
    if functions and ch.chance(45):
        f = poison.function = ch.pick(functions)
        sites = [("pre", 1), ("ret", 3)]
        if isinstance(f, VF):
            sites += [("locals", 2)]
        else:
            sites += [("name", 1), ("target", 3), ("post", 2)]
        site = ch.weighted(sites)
        poison.tokens = {
            "pre": ["precondition"], "ret": ["return"], "locals": ["locals"], "name": ["apiConfig"],
            "target": ["spec.resource"], "post": ["postcondition"],
        }[site]  # fmt: skip
        if site in ("pre", "post"):
            preds = f.preds if site == "pre" else f.posts
            pred = Pred(poison.node("bool", ienv), ch.pick(["skip", "retry", "permFail", "ok"]), 5, "here")
            if poison.conditional:
                pred.node = (*pred.node[:3], ("lit", True))
            preds.insert(ch.below(len(preds) + 1), pred)
        elif site == "ret":
            poison.put(f.ret, None, ienv)
        elif site == "locals":
            poison.put(f.locals, None, ienv)
        elif site == "name":
            f.name_node = poison.node("str", ienv)
        else:
            poison.put(f.target, None, ienv)
        poison.site = f"{f.kind}:{site}"
        return
    wf, step = poison.step = ch.pick(steps)
    sites = [("inputs", 3), ("skipIf", 2), ("state", 3), ("forEach", 3 if step.for_each else 0)]
    sites += [("switchOn", 4 if step.switch else 0)]
    site = ch.weighted(sites)
    poison.tokens = [step.label] if site == "state" else [site]
    if site == "inputs":
        poison.put(step.inputs, None, penv)
    elif site == "skipIf":
        step.skip_if = poison.node("bool", penv)
    elif site == "forEach":
        step.for_each["in"] = poison.node("ilist", penv)
    elif site == "switchOn":
        step.switch["on"] = poison.node("str", penv)
        if poison.conditional:
            step.switch["on"] = (*step.switch["on"][:3], ("lit", step.switch["cases"][0]["case"]))
    else:
        step.state = step.state or {}
        poison.put(step.state)
    poison.site = f"step:{site}"


def workflow(ctx: Ctx):
    poison = Poison(ctx)
    poison.broken = poison.ch.chance(12)
    opts = Options(**WF_OPTIONS)
    world = World(ctx, opts).build()
    poison_world(poison, world)
    for line in world.describe():
        ctx.log(line)
    ctx.log(f"poison {poison.site}")
    net = ctx.stream("net")

    # the reference notes where the failing expression was met
    current = []
    original = Interp.step

    class Watching(Interp):
        def step(self, step, trigger, outs):
            poison.here = lambda: self.path[0][1] if self.path else None
            return original(self, step, trigger, outs)

    ref, expected, initial = interpret(world, opts, ctx.stream("cluster"), Watching)
    del current

    async def go():
        top = await world.prepare()
        for key, obj in initial.items():
            world.cluster.put(key, obj)

        def policy(call):
            return Plan(turns=net.below(4), before=net.below(40) / 100, after=net.below(40) / 100)

        api = SimApi(ctx, world.cluster, policy)
        api.lookup_policy = lambda kind: Plan(turns=net.below(3))
        return await run_pass(ctx, top, world.trigger, api)

    try:
        seen = ctx.run(go)
    except Refused as refused:
        return refusal(ctx, poison, refused)
    except (Violation, HarnessError):
        raise
    except Exception as err:
        raise Violation("escaped", f"{poison.site}: {err!r}") from err
    raw = seen.raw
    if seen.cls == "ok":
        clean_of_errors("result", raw.result)
    clean_of_errors("state", raw.state)
    clean_of_errors("resource ids", raw.resource_ids)
    for _, value in seen.evals:
        clean_of_errors("inputs", value)
    for call in api_calls(seen):
        clean_of_errors("request", call.body)

    where = f"{poison.site}"
    if poison.broken:
        # not even what needs it has to be reached
        ctx.nontrivial = True
        if seen.cls == "ok" and expected.overall.cls != "ok":
            raise Violation("outcome", f"{where}: {seen.cls} expected {expected.overall}")
        return
    if seen.cls != expected.overall.cls:
        raise Violation("outcome", f"{where}: {seen.cls} {seen.message} expected {expected.overall}")
    if sorted(seen.conditions) != sorted(expected.conditions):
        raise Violation("conditions", f"{where}: {seen.conditions} expected {expected.conditions}")
    if not same(seen.state, expected.state):
        raise Violation("state", f"{where}: {seen.state} expected {expected.state}")
    if set(seen.state_errors) != set(expected.state_errors):
        raise Violation("state-errors", f"{where}: {seen.state_errors} expected {expected.state_errors}")
    for label in expected.state_errors:
        if not named([label], seen.state_errors[label]) or not named(["state"], seen.state_errors[label]):
            raise Violation("not-named", f"{where}: {label}: {seen.state_errors[label]}")
    hits = set(poison.hits) - {None}
    if poison.hits:
        ctx.nontrivial = True
    for step in world.top.steps:
        out = expected.outs[step.label]
        ctx.state(f"wf:{poison.site}:{out.cls}:{step.label in hits}:{poison.depth}")
        if step.label not in hits or out.cls != "permfail" or not decisive(poison):
            continue
        texts = [
            c["message"] + " " + str(c.get("location"))
            for c in seen.full_conditions
            if c["type"] == step.condition
        ]
        if not named(poison.tokens, *texts):
            raise Violation("not-named", f"{where} {poison.tokens}: {texts}")
        location = str(getattr(raw.result, "location", ""))
        if not named(poison.tokens, seen.message, location):
            raise Violation("not-named", f"{where} {poison.tokens}: overall {seen.message} at {location}")


def decisive(poison):
    """Meeting the failing expression means failing because of it."""
    if poison.site == "step:state":
        return False
    f = poison.function
    # a read-only function does not materialise
    return not (isinstance(f, RF) and f.readonly and poison.site.endswith("target"))


def api_calls(seen):
    return seen.api.calls


def scenario(ctx: Ctx):
    if ctx.stream("mode").chance(55):
        return resource_function(ctx)
    return workflow(ctx)
