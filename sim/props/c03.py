"""C03: outcome aggregation is severity-maximal, order-insensitive, lossless."""

from __future__ import annotations

import copy
import json

from .. import boot
from ..cluster import Cluster, Plan, SimApi
from ..core import Ctx, HarnessError, Violation
from ..world import API_VERSION, OPAQUE, SEVERITY, run_pass, same

PROP = "C03"
LEVEL = "exploration"
COUNTS = {"quick": 20000, "thorough": 300000}
RULE = (
    "One scenario draws outcomes of all five classes with unique messages, values and delays. "
    "Part A delivers them to combine/unwrapped_combine in seeded arrival orders, repeatedly and "
    "with the same objects.  Part B has steps of a real Workflow (Functions, forEach, refSwitch, "
    "sub-Workflows, faulted or waiting ResourceFunctions, dependants) produce them on a virtual-"
    "time loop with seeded latencies, in two step orders.  Part C makes steps unpreparable. "
    "Non-trivial: at least two outcomes of different classes are combined."
)
STATE_MEASURE = "distinct (part, multiset of classes) combinations"
REAL = ["koreo.result", "koreo.workflow.*", "koreo.value_function.*", "koreo.resource_function.*",
        "koreo.cel.*", "celpy"]  # fmt: skip
STUB = ["API server and transport (sim.cluster)", "event loop selector, clock"]
ASSUMPTIONS = ["an empty sequence of outcomes carries no information and may be any skip"]

CLASSES = ("ok", "skip", "depskip", "retry", "permfail")


class Item:
    def __init__(self, cls, value=None, delay=None, tokens=()):
        self.cls, self.value, self.delay, self.tokens = cls, value, delay, set(tokens)

    def __repr__(self):
        return f"{self.cls}:{self.value if self.cls == 'ok' else self.delay}:{sorted(self.tokens)}"


def winner(items) -> Item:
    if not items:
        return Item("skip")
    cls = max((i.cls for i in items), key=SEVERITY.get)
    chosen = [i for i in items if i.cls == cls]
    if cls == "ok":
        return Item("ok", [i.value for i in chosen])
    tokens = set().union(*(i.tokens for i in chosen)) if cls in ("retry", "permfail") else ()
    return Item(cls, delay=max((i.delay for i in chosen), default=0) if cls == "retry" else None,
                tokens=tokens)  # fmt: skip


def check(where, want: Item, cls, value, delay, message):
    if cls != want.cls:
        raise Violation(f"{where}:class", f"{cls} ({message}), expected {want}")
    if cls == "ok" and not same(value, want.value):
        raise Violation(f"{where}:values", f"{value}\nexpected {want.value}")
    if cls == "retry" and delay != want.delay:
        raise Violation(f"{where}:delay", f"{delay}, expected {want.delay}")
    if cls in ("retry", "permfail"):
        # a message which is part of another one must be there besides it
        lost = [
            t for t in sorted(want.tokens)
            if (message or "").count(t) < sum(u.count(t) for u in want.tokens)
        ]  # fmt: skip
        if lost:
            raise Violation(f"{where}:messages", f"lost {lost} of {sorted(want.tokens)}: {message}")


def scenario(ctx: Ctx):
    part = ctx.stream("part").weighted([("A", 6), ("B", 5), ("C", 1)])
    {"A": part_a, "B": part_b, "C": part_c}[part](ctx)


# --------------------------------------------------------------------------


VALUES = [0, 1, "", "a", None, False, True, [], [1, [2]], {}, {"k": [None]}, 1.5, [[]], "b"]


def part_a(ctx):
    from koreo import result as R

    ch = ctx.stream("gen")
    n = ch.int(0, 7) if ch.bool() else ch.int(0, 3)
    palette = CLASSES if ch.bool() else ch.shuffle(CLASSES)[: ch.int(1, 3)]
    items, wrapped, unwrapped = [], [], []
    for i in range(n):
        cls = ch.pick(palette)
        token = f"m{i}x"
        message = token if ch.chance(85) else ch.pick([None, ""])
        earlier = [t for item in items for t in item.tokens]
        if message and earlier and ch.chance(20):
            # related to an earlier one
            message = token = ch.pick([
                lambda t: t, lambda t: t[:-1], lambda t: t[1:], lambda t: f"{t} again", lambda t: f"not {t}",
            ])(ch.pick(earlier))  # fmt: skip
        tokens = {token} if message else ()
        location = ch.pick([None, "", f"loc{i}"])
        value = copy.deepcopy(ch.pick(VALUES))
        delay = ch.pick([0, 1, 5, 30, 60, 61, 300])
        items.append(Item(cls, value, delay, tokens))
        obj = {
            "ok": lambda: R.Ok(data=value, location=location),
            "skip": lambda: R.Skip(message=message, location=location),
            "depskip": lambda: R.DepSkip(message=message, location=location),
            "retry": lambda: R.Retry(message=message, delay=delay, location=location),
            "permfail": lambda: R.PermFail(message=message, location=location),
        }[cls]()
        wrapped.append(obj)
        unwrapped.append(value if cls == "ok" else obj)
    ctx.state("A:" + ",".join(sorted(i.cls for i in items)))
    ctx.nontrivial = len({i.cls for i in items}) > 1
    before = [repr(vars(w)) for w in wrapped]
    ctx.log(f"outcomes {items}")
    for arrival in range(5):
        order = list(range(n)) if arrival == 0 else ch.shuffle(range(n))
        feed = ch.below(3)
        for kind, source in (("combine", wrapped), ("unwrapped_combine", unwrapped)):
            seq = [source[i] for i in order]
            if feed == 1:
                seq = tuple(seq)
            elif feed == 2 and n:
                seq = {f"k{i}": v for i, v in enumerate(seq)}.values()
            ctx.evaluations += 1
            out = getattr(R, kind)(seq)
            ctx.log(f"{kind} {order} feed {feed} -> {type(out).__name__}")
            want = winner([items[i] for i in order])
            cls, value, delay, message = reduce_outcome(out, kind == "combine")
            if n == 0:
                if cls not in ("skip", "depskip"):
                    raise Violation(f"{kind}:class", f"nothing combined to {cls}")
                continue
            check(kind, want, cls, value, delay, message)
    if [repr(vars(w)) for w in wrapped] != before:
        raise Violation("combine:mutates", "combining changed its arguments")


def reduce_outcome(out, wrapped):
    name = type(out).__name__
    if name in ("Retry", "PermFail", "Skip", "DepSkip"):
        return name.lower(), None, getattr(out, "delay", None), out.message
    if wrapped:
        if name != "Ok":
            raise Violation("combine:class", f"combined to a {name}")
        return "ok", out.data, None, None
    return "ok", out, None, None


# --------------------------------------------------------------------------


class Maker:
    """Definitions that produce a chosen outcome."""

    def __init__(self, ctx, ch):
        self.ctx, self.ch = ctx, ch
        self.defs: list[tuple] = []  # (kind, name, spec)
        self.n = 0
        self.cluster = Cluster(ctx)
        self.cluster.define(API_VERSION, "Widget", "widgets")
        self.broken: set[str] = set()
        self.emitters: dict = {}

    def token(self):
        self.n += 1
        return f"m{self.n}x"

    def emitter(self, cls, delay):
        key = (cls, delay)
        if key not in self.emitters:
            name = f"emit-{cls}" + (f"-{delay}" if delay is not None else "")
            spec = {"return": {"v": "=inputs.v"}}
            body = {"message": "=inputs.m"}
            if cls == "retry":
                body["delay"] = delay
            if cls != "ok":
                kind = {"depskip": "depSkip", "permfail": "permFail"}.get(cls, cls)
                spec["preconditions"] = [{"assert": "=false", kind: body}]
            self.defs.append(("ValueFunction", name, spec))
            self.emitters[key] = name
        return self.emitters[key]

    def leaf(self):
        """(step body without label, Item)"""
        ch = self.ch
        cls = ch.pick(CLASSES)
        delay = ch.pick([0, 1, 7, 30, 45, 120]) if cls == "retry" else None
        token = self.token()
        value = ch.pick([0, "a", [1], {}, None, True])
        item = Item(cls, {"v": value}, delay, {token})
        return cls, delay, {"m": token, "v": value}, item

    def step(self, depth=0):
        ch = self.ch
        shape = ch.weighted([("leaf", 6), ("rf", 2), ("each", 3), ("sub", 2 if depth == 0 else 0)])
        if shape == "leaf":
            cls, delay, inputs, item = self.leaf()
            ref = {"kind": "ValueFunction", "name": self.emitter(cls, delay)}
            return {"ref": ref, "inputs": inputs}, item
        if shape == "rf":
            return self.rf()
        if shape == "each":
            leaves = [self.leaf() for _ in range(ch.int(0, 4))]
            cases = {}
            for cls, delay, _, _ in leaves:
                cases[f"{cls}{delay}"] = self.emitter(cls, delay)
            cases.setdefault("oknone", self.emitter("ok", None))
            elements = [{**inputs, "k": f"{cls}{delay}"} for cls, delay, inputs, _ in leaves]
            token = self.token()
            body = {
                "refSwitch": {
                    "switchOn": "=inputs.item.k",
                    "cases": [
                        {"case": c, "kind": "ValueFunction", "name": self.unpack(n)}
                        for c, n in cases.items()
                    ],
                },
                "forEach": {"itemIn": f"={json.dumps(elements)}", "inputKey": "item"},
                "inputs": {"t": token},
            }
            items = [i for *_, i in leaves]
            errors = [i for i in items if i.cls in ("retry", "permfail")]
            if errors:
                return body, winner(errors)
            return body, Item("ok", [i.value if i.cls == "ok" else OPAQUE for i in items])
        count = ch.int(1, 3)
        return self.sub(count)

    def unpack(self, emitter):
        """An emitter that takes its message and value from `inputs.item`."""
        name = f"{emitter}-item"
        if all(n != name for _, n, _ in self.defs):
            spec = next(s for _, n, s in self.defs if n == emitter)
            text = json.dumps(spec).replace("inputs.", "inputs.item.")
            self.defs.append(("ValueFunction", name, json.loads(text)))
        return name

    def sub(self, count):
        self.n += 1
        name = f"sub-{self.n}"
        steps, items, state = [], [], {}
        for i in range(count):
            body, item = self.step(1)
            label = f"sub_{i}"
            steps.append({"label": label, **body, "state": {label: "=value"}})
            items.append(item)
            if item.cls == "ok":
                state[label] = item.value
        self.defs.append(("Workflow", name, {"steps": steps}))
        over = winner(items)
        if over.cls == "ok":
            over = Item("ok", state)
        return {"ref": {"kind": "Workflow", "name": name}}, over

    def rf(self):
        ch = self.ch
        token = self.token()
        kind = ch.pick(["ok", "wait", "fault", "create"])
        name = f"rf-{token}"
        delay = ch.int(1, 100)
        spec = {
            "apiConfig": {
                "apiVersion": API_VERSION, "kind": "Widget", "plural": "widgets",
                "name": token, "namespace": "ns-a", "owned": False, "readonly": kind != "create",
            },
            "resource": {"spec": {"a": 1}},
            "create": {"delay": delay},
            "return": {"a": "=resource.spec.a"},
        }  # fmt: skip
        if kind == "ok":
            key = (API_VERSION, "widgets", "ns-a", token)
            obj = {"apiVersion": API_VERSION, "kind": "Widget", "spec": {"a": 3},
                   "metadata": {"name": token, "namespace": "ns-a"}}  # fmt: skip
            self.cluster.put(key, obj)
        if kind == "fault":
            self.broken.add(token)
        self.defs.append(("ResourceFunction", name, spec))
        ref = {"ref": {"kind": "ResourceFunction", "name": name}}
        if kind == "ok":
            return ref, Item("ok", {"a": 3})
        return ref, Item("retry", delay=delay if kind == "create" else 30, tokens={token})

    async def prepare(self, flows):
        from koreo.cache import get_resource_from_cache, prepare_and_cache
        from koreo.resource_function.prepare import prepare_resource_function
        from koreo.resource_function.structure import ResourceFunction
        from koreo.value_function.prepare import prepare_value_function
        from koreo.value_function.structure import ValueFunction
        from koreo.workflow.prepare import prepare_workflow
        from koreo.workflow.structure import Workflow

        kinds = {
            "ValueFunction": (ValueFunction, prepare_value_function),
            "ResourceFunction": (ResourceFunction, prepare_resource_function),
            "Workflow": (Workflow, prepare_workflow),
        }
        for kind, name, spec in [*self.defs, *(("Workflow", n, s) for n, s in flows)]:
            cls, preparer = kinds[kind]
            self.ctx.log(f"{kind} {name} {json.dumps(spec)}")
            await prepare_and_cache(
                resource_class=cls, preparer=preparer,
                metadata={"name": name, "resourceVersion": "1"}, spec=spec,
            )  # fmt: skip
        return [get_resource_from_cache(Workflow, n) for n, _ in flows]


def part_b(ctx):
    ch = ctx.stream("gen")
    maker = Maker(ctx, ch)
    bodies = []
    for i in range(ch.int(1, 6)):
        body, item = maker.step()
        bodies.append([f"step_{i}", body, item])
    # dependants (never of a forEach: its value is checked elsewhere)
    for entry in bodies[1:]:
        if ch.chance(20) and "inputs" in entry[1] and "forEach" not in entry[1]:
            other = bodies[ch.below(bodies.index(entry))]
            entry[1]["inputs"]["dep"] = f"=steps.{other[0]}"
            if other[2].cls != "ok":
                entry[2] = Item("depskip")
    plain = not any("dep" in (b.get("inputs") or {}) for _, b, _ in bodies)
    orders = [list(range(len(bodies)))]
    if plain:
        orders.append(ch.shuffle(orders[0]))
    flows = [
        (f"flow-{n}", {"steps": [{"label": bodies[i][0], **bodies[i][1]} for i in order]})
        for n, order in enumerate(orders)
    ]
    prepared = ctx.run(lambda: maker.prepare(flows))
    items = [b[2] for b in bodies]
    ctx.state("B:" + ",".join(sorted(i.cls for i in items)))
    ctx.nontrivial = len({i.cls for i in items}) > 1
    ctx.log(f"steps {items}")
    for order, workflow in zip(orders, prepared):
        sched = ctx.stream(f"sched{orders.index(order)}")

        def policy(call):
            if call.name in maker.broken:
                return Plan(fault="http503", turns=sched.int(0, 3))
            return Plan(before=sched.int(0, 9) * 0.1, turns=sched.int(0, 3))

        api = SimApi(ctx, maker.cluster.clone(maker.cluster.objects), policy)
        obs = ctx.run(lambda: run_pass(ctx, workflow, {}, api))
        ctx.evaluations += 1
        want = winner([items[i] for i in order])
        check("workflow", want, obs.cls, obs.value, obs.delay, obs.message)
        reason = obs.conditions[-1]
        expected = {"ok": "Ready", "skip": "Skip", "depskip": "DepSkip", "retry": "Wait",
                    "permfail": "Failure"}[want.cls]  # fmt: skip
        if reason != ("Ready", expected):
            raise Violation("workflow:condition", f"{reason}, expected {expected}")


# --------------------------------------------------------------------------


def part_c(ctx):
    """Readiness: what can not be prepared is aggregated the same way."""
    ch = ctx.stream("gen")
    maker = Maker(ctx, ch)
    ok = maker.emitter("ok", None)
    bad = ("ValueFunction", "broken-vf", {"return": {"v": "=1 +"}})
    maker.defs.append(bad)
    steps, worst = [], []
    for i in range(ch.int(1, 5)):
        kind = ch.pick(["ok", "missing", "broken", "syntax", "switch"])
        body = {"ref": {"kind": "ValueFunction", "name": ok}, "inputs": {"v": 1, "m": ""}}
        if kind == "missing":
            body["ref"]["name"] = f"missing-{i}"
            worst.append(Item("retry", delay=None, tokens={f"missing-{i}"}))
        elif kind == "broken":
            body["ref"]["name"] = "broken-vf"
            worst.append(Item("notready"))
        elif kind == "syntax":
            body["inputs"]["v"] = "=(1"
            worst.append(Item("permfail"))
        elif kind == "switch":
            body.pop("ref")
            names = [ch.pick([ok, f"missing-{i}a", f"missing-{i}b"]) for _ in range(ch.int(1, 3))]
            body["refSwitch"] = {
                "switchOn": "=inputs.m",
                "cases": [{"case": f"c{j}", "kind": "ValueFunction", "name": n,
                           **({} if j else {"default": True})} for j, n in enumerate(names)],
            }  # fmt: skip
            gone = {n for n in names if n.startswith("missing")}
            if gone:
                worst.append(Item("retry", delay=None, tokens=gone))
        steps.append({"label": f"step_{i}", **body})
    (workflow,) = ctx.run(lambda: maker.prepare([("flow-0", {"steps": steps})]))
    ctx.state("C:" + ",".join(sorted(i.cls for i in worst)))
    ctx.nontrivial = len({i.cls for i in worst}) > 1
    api = SimApi(ctx, maker.cluster)
    obs = ctx.run(lambda: run_pass(ctx, workflow, {}, api))
    ctx.evaluations += 1
    ctx.log(f"unready {worst} -> {obs.cls} {obs.message}")
    classes = {w.cls for w in worst}
    if not classes:
        if obs.cls != "ok":
            raise Violation("readiness:class", f"{obs.cls} {obs.message}, every step is ready")
        return
    if obs.cls not in ("retry", "permfail"):
        raise Violation("readiness:class", f"{obs.cls}, yet unready: {worst}")
    if "permfail" in classes and obs.cls != "permfail":
        raise Violation("readiness:class", f"{obs.cls}, yet unready: {worst}")
    if classes == {"retry"}:
        if obs.cls != "retry":
            raise Violation("readiness:class", f"{obs.cls}, yet unready: {worst}")
        for token in set().union(*(w.tokens for w in worst)):
            if token not in (obs.message or ""):
                raise Violation("readiness:messages", f"lost {token}: {obs.message}")
