"""C12: targets and returns are ordered deep merges; evaluation is pure."""

from __future__ import annotations

import asyncio
import copy
import json

from ..core import Ctx, HarnessError, Violation
from .. import expr as E
from ..cluster import Cluster, Plan, SimApi
from ..rfsim import LAST_APPLIED, merge
from ..world import OWNER, outcome_of
from .c11 import difference

PROP = "C12"
LEVEL = "exploration"
COUNTS = {"quick": 1200, "thorough": 50000}
RULE = (
    "One scenario: two ResourceFunctions sharing a template and function overlays (up to six overlays "
    "each, colliding key trees, skips, create overlays), ValueFunctions over given bases and a Workflow "
    "handing one value to several steps are evaluated 6-20 times in a seeded order, several passes in "
    "flight at once with request latency, passes sharing input values, objects absent or drifted. Every POST "
    "and PATCH payload and every return is compared with a reference merge; inputs, cached templates and "
    "functions are compared with their snapshots throughout; equal inputs must repeat. Non-trivial: always."
)
STATE_MEASURE = "distinct (part, base kind, overlay kinds and skips, outcome)"
REAL = [
    "koreo.cel", "koreo.value_function", "koreo.resource_function", "koreo.resource_template",
    "koreo.workflow", "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "an overlay value that is one expression yielding a map, over a map, is open (it is both a "
    "map and one value)",
    "overlay() with an empty map over a map is open",
]

VERSION = "sim.koreo.dev/v1"
KEYS = ["a", "b", "c", "d", "x.y/z", "map"]
NAMES = ["a.b/c", "x-y", "p.q", "a[0]", "n.n", "m2"]  # of inputs
NUM, STR, BOOL, LIST, MAP = "int", "str", "bool", "ilist", "map"


def fixed_env(root, prefix=()):
    return [(t, root, (*prefix, k)) for k, t in (("n", NUM), ("s", STR), ("b", BOOL), ("l", LIST))]


class Missing(Exception):
    """The target needs a function which there is not."""


class MapGen:
    """Documents and map-valued expressions."""

    def __init__(self, ch, env, maps):
        self.ch, self.env, self.maps = ch, env, maps

    def leaf(self):
        ch = self.ch
        kind = ch.weighted([("lit", 5), ("expr", 4), ("map", 2 if self.maps else 0), ("list", 2), ("empty", 2)])
        if kind == "lit":
            return ch.pick([0, 1, "s", "two words", True, False, 1.5, None, "t"])
        if kind == "expr":
            return E.X(E.Gen(ch, self.env).gen(ch.pick([NUM, STR, BOOL, LIST]), 2))
        if kind == "map":
            return E.X(self.map_expr(2))
        if kind == "empty":
            return ch.pick([{}, []])
        return [ch.pick([1, "s", {}, [2]]) if ch.bool() else self.doc(0) for _ in range(ch.int(1, 2))]

    def doc(self, depth):
        ch = self.ch
        out = {}
        for key in ch.shuffle(KEYS)[: ch.int(1, 4)]:
            out[key] = self.doc(depth - 1) if depth and ch.chance(60) else self.leaf()
        return out

    def map_expr(self, depth):
        ch = self.ch
        kind = ch.below(5) if depth else 0
        if kind <= 1:
            root, path = ch.pick(self.maps)
            return ("path", root, tuple((p, ch.below(2)) for p in path))
        if kind == 2:
            return ("map", [(k, E.Gen(ch, self.env).gen(NUM, 1)) for k in ch.shuffle(KEYS)[: ch.int(1, 3)]])
        if kind == 3:
            return (ch.pick(["fn", "method"]), "overlay", [self.map_expr(depth - 1), self.map_expr(depth - 1)])
        return ("cond", E.Gen(ch, self.env).gen(BOOL, 1), self.map_expr(depth - 1), self.map_expr(depth - 1))

    def list_expr(self, depth):
        ch = self.ch
        kind = ch.below(4)
        if kind == 0:
            return ("fn", "flatten", [("list", [E.Gen(ch, self.env).gen(LIST, 1) for _ in range(ch.int(1, 3))])])
        if kind == 1:
            var = "it"
            inner = MapGen(ch, self.env, self.maps)
            return ("macro", "map", E.Gen(ch, self.env).gen(LIST, 1), var,
                    ("fn", "overlay", [inner.map_expr(1), ("map", [("a", ("var", var))])]))  # fmt: skip
        if kind == 2:  # with variables whose names look like other names
            var = ch.pick(["it", "inputs_i", "inputsx", "input", "inputs2", "resource_", "locals_l"])
            items = [("map", [("a", E.Gen(ch, self.env).gen(NUM, 1))]) for _ in range(ch.int(1, 3))]
            return ("macro", "map", ("list", items), var, ("path", var, (("a", ch.below(2)),)))
        return E.Gen(ch, self.env).gen(LIST, 2)


def apply(base, overlay, env):
    """`merge`, with the ambiguous case noticed."""
    out = dict(base)
    for key, value in overlay.items():
        if isinstance(value, dict) and value:
            below = out.get(key)
            out[key] = apply(below if isinstance(below, dict) else {}, value, env)
            continue
        got = E.evs(value, env)
        if isinstance(value, E.X) and isinstance(got, dict) and isinstance(out.get(key), dict):
            if got and out[key]:
                raise E.Open("map expression over a map")
        out[key] = got
    return out


def dump(v, seen=()):
    """Deep structural fingerprint, kinds included."""
    if id(v) in seen:
        return "loop"
    seen = (*seen, id(v))
    name = type(v).__name__
    if isinstance(v, dict):
        return (name, tuple((dump(k, seen), dump(x, seen)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return (name, tuple(sorted(map(str, v))))
    if hasattr(v, "_fields"):
        return (name, tuple((f, dump(getattr(v, f), seen)) for f in v._fields))
    if isinstance(v, (list, tuple)):
        return (name, tuple(dump(x, seen) for x in v))
    if v is None or isinstance(v, (str, int, float, bytes)):
        return (name, repr(v))
    if hasattr(v, "__dataclass_fields__"):
        return (name, tuple((f, dump(getattr(v, f), seen)) for f in v.__dataclass_fields__))
    return name


class Rf:
    def __init__(self, world, name):
        self.name = name
        ch = self.ch = world.ch
        self.world = world
        env = fixed_env("inputs")
        maps = [("inputs", ("m",)), ("inputs", ("deep", "m"))]
        g = MapGen(ch, env, maps)
        self.locals = {"q": E.X(E.Gen(ch, env).gen(NUM, 2)), "m": E.X(g.map_expr(2)), "d": g.doc(1)}
        self.env = env + [(NUM, "locals", ("q",))]
        self.maps = maps + [("locals", ("m",)), ("locals", ("d",))]
        # what overlays may rely on in the resource
        self.res_env = self.env + fixed_env("resource", ("spec",))
        self.template = ch.pick([None, "t1", "t2", "either"])
        self.base = self.record(MapGen(ch, self.env, self.maps)) if self.template is None else None
        if self.base and ch.chance(6):
            self.base = {}  # the overlays (if they can do without) make all of it
        self.overlays = [self.overlay(i) for i in range(ch.weighted([(1, 3), (2, 3), (0, 1), (4, 2), (6, 1)]))]
        self.create = MapGen(ch, self.res_env, self.maps + [("resource", ("spec",))]).doc(2) if ch.chance(30) else None

    def record(self, g):
        """A document whose spec has the typed record."""
        spec = g.doc(2)
        for t, _, (k,) in [(t, r, (p[-1],)) for t, r, p in fixed_env("x")]:
            spec[k] = E.X(E.Gen(self.ch, g.env).gen(t, 1))
        return {"spec": spec, **self.meta(g), **({"data": g.doc(1)} if self.ch.bool() else {})}

    def meta(self, g):
        ch = self.ch
        if not ch.chance(40):
            return {}
        labels = {k: ch.pick(["x", "y", E.X(E.Gen(ch, g.env).gen(STR, 1))]) for k in ch.shuffle(KEYS)[:2]}
        return {"metadata": {ch.pick(["labels", "annotations"]): labels}}

    def overlay(self, i):
        ch = self.ch
        entry = {"skip": None, "doc": None, "vf": None}
        if ch.chance(30):
            entry["skip"] = ("lit", True) if ch.chance(30) else E.Gen(ch, self.env).gen(BOOL, 1)
        if ch.chance(3):
            entry["missing"] = ch.pick(["nosuch", "broken"])
        elif ch.chance(60):
            entry["doc"] = self.overlay_doc(self.res_env, self.maps + [("resource", ("spec",))])
        else:
            entry["vf"] = ch.pick(self.world.vfs)
            entry["inputs"] = {
                k: E.X(E.Gen(ch, self.env).gen(t, 1)) for t, _, (k,) in fixed_env("inputs")
            } | {"m": E.X(MapGen(ch, self.env, self.maps).map_expr(1)), "deep": E.X(("path", "inputs", (("deep", 0),)))}
            if entry["vf"].odd:
                entry["inputs"][entry["vf"].odd] = E.X(E.Gen(ch, self.env).gen(NUM, 1))
        return entry

    def overlay_doc(self, env, maps):
        return overlay_doc(self.ch, env, maps, self.meta)

    def spec(self):
        spec = {
            "apiConfig": {
                "apiVersion": VERSION, "kind": "Widget", "plural": "widgets", "namespace": "ns-a",
                "name": "=inputs.who", "owned": False,
            },
            "locals": E.render(self.locals),
            "return": {"spec": "=resource.spec", "m": "=locals.m", "l": "=inputs.l"},
        }  # fmt: skip
        if self.template is None:
            spec["resource"] = E.render(self.base)
        elif self.template == "either":
            spec["resourceTemplateRef"] = {"name": "=inputs.b ? 't1' : 't2'"}
        else:
            spec["resourceTemplateRef"] = {"name": self.template}
        if self.overlays:
            spec["overlays"] = []
        for entry in self.overlays:
            if entry["doc"] is not None:
                out = {"overlay": E.render(entry["doc"])}
            elif "missing" in entry:
                out = {"overlayRef": {"kind": "ValueFunction", "name": entry["missing"]}}
            else:
                out = {
                    "overlayRef": {"kind": "ValueFunction", "name": entry["vf"].name},
                    "inputs": E.render(entry["inputs"]),
                }
            if entry["skip"] is not None:
                out["skipIf"] = E.expr(entry["skip"])
            spec["overlays"].append(out)
        if self.create is not None:
            spec["create"] = {"overlay": E.render(self.create), "delay": 5}
        return spec

    def target(self, inputs):
        """(target, created)"""
        if any("missing" in entry for entry in self.overlays):
            raise Missing
        env = {"inputs": inputs}
        env["locals"] = E.evs(self.locals, env)
        forced = {
            "apiVersion": VERSION, "kind": "Widget",
            "metadata": {"name": inputs["who"], "namespace": "ns-a"},
        }  # fmt: skip
        if self.template is None:
            doc = E.evs(self.base, env)
        else:
            name = self.template
            if name == "either":
                name = "t1" if inputs["b"] else "t2"
            doc = copy.deepcopy(self.world.templates[name])
        doc = merge(doc, forced)
        for entry in self.overlays:
            if entry["skip"] is not None and E.ev(entry["skip"], env):
                continue
            if entry["doc"] is not None:
                doc = apply(doc, entry["doc"], {**env, "resource": doc})
            else:
                doc = entry["vf"].value(E.evs(entry["inputs"], env), doc)
        doc = merge(doc, forced)
        created = doc
        if self.create is not None:
            created = merge(apply(doc, self.create, {**env, "resource": doc}), forced)
        return doc, created


def overlay_doc(ch, env, maps, meta=None):
    g = MapGen(ch, env, maps)
    spec = g.doc(2)
    for t, _, (k,) in fixed_env("x"):
        if ch.chance(30):
            spec[k] = E.X(E.Gen(ch, env).gen(t, 1))
    out = {"spec": spec} if ch.chance(85) else {"data": spec}
    if meta:
        out.update(meta(g))
    if ch.chance(30):
        out[ch.pick(["data", "other", "a"])] = g.doc(1)
    return out


class Vf:
    """A function used as overlay and called directly over a base."""

    def __init__(self, world, name):
        self.name = name
        ch = world.ch
        env = fixed_env("inputs")
        self.odd = ch.pick(NAMES) if ch.chance(25) else None
        if self.odd:
            env += [(NUM, "inputs", (self.odd,))] * 3
        maps = [("inputs", ("m",)), ("inputs", ("deep", "m"))]
        g = MapGen(ch, env, maps)
        self.locals = {"q": E.X(E.Gen(ch, env).gen(NUM, 2)), "m": E.X(g.map_expr(2)), "l": E.X(g.list_expr(1))}
        self.free = ch.chance(30)
        env = env + [(NUM, "locals", ("q",))]
        if not self.free:
            env += fixed_env("resource", ("spec",))
            if ch.chance(40):
                self.locals["r"] = E.X(E.Gen(ch, fixed_env("resource", ("spec",))).gen(NUM, 2))
                self.locals["rl"] = E.X(E.Gen(ch, fixed_env("resource", ("spec",))).gen(LIST, 1))
                env += [(NUM, "locals", ("r",)), (LIST, "locals", ("rl",))]
        self.guard = not self.free and ch.chance(20)
        self.ret = overlay_doc(ch, env, maps + [("locals", ("m",)), ("resource", ("spec",))])
        if self.free:  # does not read the base
            g = MapGen(ch, fixed_env("inputs"), maps)
            self.ret = {"spec": g.doc(2), "x": E.X(g.list_expr(1)), "y": E.X(g.map_expr(2))}

    def spec(self):
        out = {"locals": E.render(self.locals), "return": E.render(self.ret)}
        if self.guard:  # always holds, over a base
            out["preconditions"] = [{"assert": "=resource.spec.n > -1000", "permFail": {"message": "no base"}}]
        return out

    def value(self, inputs, base):
        env = {"inputs": inputs, "resource": base or {}}
        if base is None:
            del env["resource"]
        env["locals"] = E.evs(self.locals, env)
        env["resource"] = base or {}
        return apply(base or {}, self.ret, env)


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ch = ctx.stream("gen")
        self.act = ctx.stream("act")
        self.net = ctx.stream("net")
        ch = self.ch
        self.templates = {}
        for name in ("t1", "t2"):
            g = MapGen(ch, [], [])
            doc = plain(ch, g.doc(2))
            spec = plain(ch, g.doc(2))
            for t, _, (k,) in fixed_env("x"):
                spec[k] = E.Gen(ch, []).literal(t)
            self.templates[name] = {**doc, "apiVersion": VERSION, "kind": "Widget", "spec": spec}
        self.vfs = [Vf(self, f"vf{i}") for i in range(ch.int(1, 3))]
        self.rfs = [Rf(self, f"rf{i}") for i in range(2)]
        self.cluster = Cluster(ctx)
        self.cluster.define(VERSION, "Widget", "widgets")
        self.pool = []
        for i in range(ch.int(2, 3)):
            g = MapGen(ch, [], [])
            self.pool.append({
                "n": ch.int(0, 4), "s": ch.pick(E.WORDS), "b": ch.bool(), "l": [ch.int(0, 3) for _ in range(ch.int(0, 3))],
                **{name: ch.int(0, 9) for name in NAMES},
                "m": plain(ch, g.doc(1)), "deep": {"m": plain(ch, g.doc(2)), "k": [{"z": 1}]},
            })  # fmt: skip

    async def prepare(self):
        from .c11 import prepare

        for name, doc in self.templates.items():
            await prepare(self.ctx, "ResourceTemplate", name, {"template": doc})
        # preparation fails, so it is cached as a failure
        await prepare(self.ctx, "ValueFunction", "broken", {"return": {"spec": "=1 +"}}, broken=True)
        self.prepared = {}
        for thing, kind in [(v, "ValueFunction") for v in self.vfs] + [(r, "ResourceFunction") for r in self.rfs]:
            self.prepared[thing.name] = await prepare(
                self.ctx, kind, thing.name, thing.spec(), broken=any("missing" in o for o in getattr(thing, "overlays", ()))
            )
        self.fingerprint = self.snapshot()

    def snapshot(self):
        from koreo.cache import get_resource_from_cache
        from koreo.resource_template.structure import ResourceTemplate

        out = {name: dump(f) for name, f in self.prepared.items()}
        for name in self.templates:
            out[name] = dump(get_resource_from_cache(ResourceTemplate, name))
        return out


def plain(ch, doc):
    """Evaluate away expressions of a generated document."""
    return E.evs(doc, {})


def scenario(ctx: Ctx):
    return ctx.run(lambda: main(ctx))


async def main(ctx: Ctx):
    world = World(ctx)
    ctx.nontrivial = True
    await world.prepare()
    act = world.act
    results: dict = {}
    for number in range(act.int(4, 10)):
        part = act.weighted([("rf", 5), ("vf", 3), ("wf", 1)])
        if part == "rf":
            await resource_functions(world, results, number)
        elif part == "vf":
            await value_function(world, results)
        else:
            await workflow(world, number)
        after = world.snapshot()
        for name, was in world.fingerprint.items():
            if after[name] != was:
                raise Violation("prepared-modified", f"{name} {part}: {was}\nbecame {after[name]}")


def same_again(results, key, value):
    text = json.dumps(value, sort_keys=True)
    if results.setdefault(key, text) != text:
        raise Violation("not-repeatable", f"{key}: {results[key]} then {text}")


async def value_function(world, results):
    from koreo.value_function.reconcile import reconcile_value_function

    ctx, act = world.ctx, world.act
    f = act.pick(world.vfs)
    i = act.below(len(world.pool))
    inputs = copy.deepcopy(world.pool[i])
    j = act.below(3)
    base = [None, world.templates["t1"], world.templates["t2"]][j]
    if not f.free and base is None:
        base, j = world.templates["t1"], 1
    cel_inputs = E.to_cel(copy.deepcopy(inputs))
    cel_base = None if base is None else E.to_cel(copy.deepcopy(base))
    marks = dump(cel_inputs), dump(cel_base)
    for turn in range(2):
        out = await reconcile_value_function(
            location="x", function=world.prepared[f.name], inputs=cel_inputs, value_base=cel_base
        )
        if (dump(cel_inputs), dump(cel_base)) != marks:
            raise Violation("inputs-modified", f"{f.name} {f.spec()} inputs {E.to_py(cel_inputs)} base {E.to_py(cel_base)}")
        cls, value, _, message = outcome_of(out)
        same_again(results, (f.name, i, j), [cls, value])
    ctx.evaluations += 2
    try:
        want = f.value(inputs, base)
    except E.Open:
        ctx.state(f"vf:{j}:open")
        return
    except E.EvalFail:
        ctx.state(f"vf:{j}:fail")
        if cls != "permfail":
            raise Violation("unevaluable", f"{cls} {value} {f.spec()} {inputs}") from None
        return
    ctx.state(f"vf:{j}:{f.free}")
    ctx.log(f"vf {f.name} {i} {j} {json.dumps(value, sort_keys=True)}")
    if cls != "ok":
        raise Violation("not-evaluated", f"{cls} {message} {f.spec()} {inputs}")
    if d := difference(want, value):
        raise Violation("return", f"{d}\n{json.dumps(f.spec())}\ninputs {inputs} base {base}")


async def resource_functions(world, results, number):
    """Several passes in flight; some share parts of their inputs."""
    act = world.act
    pool = [E.to_cel(copy.deepcopy(v)) for v in world.pool]
    batch = []
    for k in range(act.weighted([(1, 4), (2, 3), (3, 1)])):
        f = act.pick(world.rfs)
        i = act.below(len(pool))
        batch.append((f, i, f"w{number}-{k}", act.weighted([("absent", 3), ("drifted", 3), ("twice", 2)])))
    # one pass per input value and name, the nested values are shared
    from celpy import celtypes

    jobs = []
    for f, i, who, situation in batch:
        cel = celtypes.MapType({**pool[i], celtypes.StringType("who"): celtypes.StringType(who)})
        jobs.append(one(world, results, f, i, who, situation, cel))
    marks = [dump(p) for p in pool]
    await asyncio.gather(*jobs)
    if [dump(p) for p in pool] != marks:
        raise Violation("inputs-modified", f"{[f.spec() for f, *_ in batch]} {[E.to_py(p) for p in pool]}")


async def one(world, results, f, i, who, situation, cel):
    from koreo.resource_function.reconcile import reconcile_resource_function

    ctx, net = world.ctx, world.net
    if f.base == {}:
        situation = "absent"
    if type(world.prepared[f.name]).__name__ in ("PermFail", "Retry"):
        return
    inputs = {**copy.deepcopy(world.pool[i]), "who": who}
    key = (VERSION, "widgets", "ns-a", who)
    if situation == "drifted":
        world.cluster.put(key, {
            "apiVersion": VERSION, "kind": "Widget", "metadata": {"name": who, "namespace": "ns-a"},
            "spec": "drifted",
        })  # fmt: skip
    api = SimApi(
        ctx, world.cluster,
        lambda call: Plan(turns=net.below(4), before=net.below(20) / 100, after=net.below(20) / 100),
    )  # fmt: skip
    opened = failed = missing = False
    want = created = None
    try:
        want, created = f.target(inputs)
    except Missing:
        missing = True
    except E.Open:
        opened = True
    except E.EvalFail:
        failed = True
    for turn in range(2 if situation == "twice" else 1):
        before = dump(cel)
        sent = len(api.calls)
        result = await reconcile_resource_function(
            api=api, location="x", function=world.prepared[f.name], owner=copy.deepcopy(OWNER), inputs=cel
        )
        if dump(cel) != before:
            raise Violation("inputs-modified", f"{f.name} {f.spec()} became {E.to_py(cel)}")
        cls, value, _, message = outcome_of(result.outcome)
        calls = [c for c in api.calls[sent:] if c.mutating]
        ctx.evaluations += 1
        kinds = [("vf" if e["vf"] else "inline") + ("?" if e["skip"] else "") for e in f.overlays]
        ctx.state(f"rf:{f.template}:{kinds}:{f.create is not None}:{cls}:{[c.method for c in calls]}:{opened}")
        ctx.log(f"rf {f.name} {who} {situation} {cls} {message} {[(c.method, c.body) for c in calls]}")
        if missing:
            if cls not in ("retry", "permfail") or calls:
                raise Violation("overlay-left-out", f"{cls} {calls} {json.dumps(f.spec())} {inputs}")
            continue
        if opened:
            continue
        if failed:
            if cls != "permfail" or calls:
                # a create overlay alone may fail: then nothing is created
                if not (f.create is not None and situation == "drifted"):
                    raise Violation("unevaluable", f"{cls} {calls} {json.dumps(f.spec())} {inputs}")
            continue
        if cls == "permfail":
            raise Violation("not-evaluated", f"{message} {json.dumps(f.spec())} {inputs}")
        for call in calls:
            if call.method not in ("POST", "PATCH"):
                raise Violation("call", repr(call))
            payload(world, f, call, created if call.method == "POST" else want, inputs)
            body = copy.deepcopy(call.body)
            body["metadata"].pop("name")
            body["metadata"].get("annotations", {}).pop(LAST_APPLIED, None)
            same_again(results, (f.name, i, call.method), body)
        if turn == 0 and not calls:
            raise Violation("nothing-sent", f"{situation} {cls} {message} {json.dumps(f.spec())}")
        if cls == "ok":
            if d := difference({"m": E.evs(f.locals["m"], {"inputs": inputs}), "l": inputs["l"]}, {"m": value["m"], "l": value["l"]}):
                raise Violation("return", f"{d} {json.dumps(f.spec())}")


def payload(world, f, call, want, inputs):
    body = copy.deepcopy(call.body)
    notes = body["metadata"].setdefault("annotations", {})
    notes.pop(LAST_APPLIED, None)
    want = copy.deepcopy(want)
    want["metadata"].setdefault("annotations", {})
    body["metadata"].pop("ownerReferences", None)
    if d := difference(want, body):
        raise Violation(
            "payload", f"{call.method} {d}\n{json.dumps(f.spec())}\ninputs {json.dumps(inputs)}\n"
            f"templates {json.dumps(world.templates)}\nfunctions {[(v.name, v.spec()) for v in world.vfs]}",
        )  # fmt: skip


async def workflow(world, number):
    """One value handed to several steps that derive others from it."""
    from koreo.workflow.reconcile import reconcile_workflow
    from .c11 import prepare

    ctx, ch = world.ctx, world.ch
    steps, expected = [], {}
    trigger = copy.deepcopy(world.pool[0])
    count = ch.int(2, 4)
    env_py = {"parent": trigger, "steps": {}}
    opened = failed = False
    for i in range(count):
        label = f"step{i}"
        maps = [("parent", ("m",)), ("parent", ("deep", "m"))]
        maps += [("steps", (f"step{k}", "out")) for k in range(i)] * 3
        g = MapGen(ch, fixed_env("parent"), maps)
        node = {"x": E.X(g.map_expr(2)), "y": E.X(g.map_expr(1)), "l": E.X(g.list_expr(1))}
        ret = {
            "out": E.X(("fn", "overlay", [("path", "inputs", (("x", 0),)), ("path", "inputs", (("y", 0),))])),
            "l": E.X(("fn", "flatten", [("list", [("path", "inputs", (("l", 0),)), ("path", "inputs", (("l", 0),))])])),
            "keep": E.X(("path", "inputs", (("x", 0),))),
        }
        name = f"wfvf{number}-{i}"
        await prepare(ctx, "ValueFunction", name, {"return": E.render(ret)})
        steps.append({
            "label": label, "ref": {"kind": "ValueFunction", "name": name}, "inputs": E.render(node),
            "state": {label: "=value"},
        })  # fmt: skip
        if opened or failed:
            continue
        try:
            inputs = E.evs(node, env_py)
            out = E.evs(ret, {"inputs": inputs})
            env_py["steps"][label] = out
            expected[label] = copy.deepcopy(out)
        except E.Open:
            opened = True
        except E.EvalFail:
            failed = True
    prepared = await prepare(ctx, "Workflow", f"wf{number}", {"steps": steps})
    cel = E.to_cel(copy.deepcopy(trigger))
    mark = dump(cel)
    states = []
    for _ in range(2):
        result = await reconcile_workflow(
            api=SimApi(ctx, Cluster(ctx)), workflow_key="wf", owner=copy.deepcopy(OWNER), trigger=cel, workflow=prepared
        )
        if dump(cel) != mark:
            raise Violation("inputs-modified", f"trigger became {E.to_py(cel)}: {json.dumps(steps)}")
        states.append(E.to_py(result.state))
    if states[0] != states[1]:
        raise Violation("not-repeatable", f"{states} {json.dumps(steps)}")
    ctx.state(f"wf:{opened}:{failed}")
    if opened or failed:
        return
    if d := difference(expected, states[0]):
        raise Violation("state", f"{d} {json.dumps(steps)} trigger {json.dumps(trigger)}")
