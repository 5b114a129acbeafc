"""Generated Workflows, Functions and cluster contents, with an independent
reference interpreter (`Interp`).

A world is a set of definitions (rendered to real specs and prepared by the
real code) plus a trigger and initial cluster objects.  `Interp` predicts, from
the generator's own AST, the outcome of every step, every Logic evaluation and
its inputs, the conditions, the published state and the requests a pass makes.
"""

from __future__ import annotations

import copy
import json

from . import boot, expr as E
from .cluster import Cluster, SimApi
from .core import Ctx, HarnessError, Violation

API_VERSION = "sim.koreo.dev/v1"
OWNER = (
    "owner-ns",
    {
        "apiVersion": "sim.koreo.dev/v1", "kind": "Trigger", "name": "the-owner",
        "uid": "owner-uid-1", "blockOwnerDeletion": True, "controller": False,
    },
)  # fmt: skip

#: stands for text koreo chose itself (an encoded Skip inside a forEach list)
OPAQUE = "\0opaque"


def same(a, b) -> bool:
    if a is OPAQUE or b is OPAQUE or a == OPAQUE or b == OPAQUE:
        return isinstance(a, str) and isinstance(b, str)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return E.same(a, b)


class Refused(Violation):
    """A valid definition was not prepared, so it can not do what it has to."""

    def __init__(self, outcome, message):
        super().__init__("refused", message)
        self.outcome = outcome


class Out:
    """An outcome: class, value or delay, and a message marker if known."""

    __slots__ = ("cls", "value", "delay", "marker")

    def __init__(self, cls, value=None, delay=None, marker=None):
        self.cls = cls
        self.value = value
        self.delay = delay
        self.marker = marker

    def __repr__(self):
        return f"{self.cls}({self.value if self.cls == 'ok' else self.delay})"

    @property
    def error(self):
        return self.cls in ("retry", "permfail")


SEVERITY = {"depskip": 0, "skip": 1, "ok": 2, "retry": 3, "permfail": 4}
REASON = {
    "ok": "Ready", "skip": "Skip", "depskip": "DepSkip", "retry": "Wait",
    "permfail": "Failure",
}  # fmt: skip


def combine(outs) -> Out:
    """The documented aggregation."""
    outs = list(outs)
    if not outs:
        return Out("skip")
    worst = max(outs, key=lambda o: SEVERITY[o.cls]).cls
    if worst == "ok":
        return Out("ok", [o.value for o in outs if o.cls == "ok"])
    if worst == "retry":
        return Out("retry", delay=max(o.delay for o in outs if o.cls == "retry"))
    return Out(worst)


# --------------------------------------------------------------------------
# definitions
# --------------------------------------------------------------------------

RECORD = ("n", "s", "b", "l")
TYPES = {"n": "int", "s": "str", "b": "bool", "l": "ilist"}


def record_env(root, prefix=()):
    return [(TYPES[k], root, (*prefix, k)) for k in RECORD]


class Pred:
    def __init__(self, node, kind, delay=None, marker=""):
        self.node, self.kind, self.delay, self.marker = node, kind, delay, marker

    def passed(self):
        """Told when it is true."""

    def decide(self):
        """What being the first false one leads to, if not what it says."""

    def spec(self):
        body = {
            "ok": {},
            "skip": {"message": self.marker},
            "depSkip": {"message": self.marker},
            "permFail": {"message": self.marker},
            "retry": {"message": self.marker, "delay": self.delay},
        }[self.kind]
        return {"assert": E.expr(self.node), self.kind: body}


def eval_preds(preds, env) -> Out | None:
    """First false assertion decides; an unevaluable one fails the list."""
    values = []
    for p in preds:
        try:
            v = E.ev(p.node, env)
        except E.EvalFail:
            return Out("permfail")
        if not isinstance(v, bool):
            return Out("permfail")
        values.append(v)
    for p, v in zip(preds, values):
        if v:
            p.passed()
            continue
        if p.kind == "ok":
            return None
        if decided := p.decide():
            return decided
        return Out(p.kind.lower(), delay=p.delay, marker=p.marker)
    return None


class VF:
    kind = "ValueFunction"
    plain = False

    def __init__(self, name, preds, locals_, ret):
        self.name, self.preds, self.locals, self.ret = name, preds, locals_, ret

    def spec(self):
        spec = {
            "preconditions": [
                {
                    "assert": f"=simreached('{self.name}:pre', inputs)",
                    "permFail": {"message": "never"},
                },
                *[p.spec() for p in self.preds],
            ],
            "locals": {
                "probe": f"=simprobe('{self.name}', inputs)",
                **E.render(self.locals),
            },
        }
        if self.ret is not None:
            spec["return"] = E.render(self.ret)
        return spec


class RF:
    kind = "ResourceFunction"

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def spec(self):
        api = {
            "apiVersion": API_VERSION,
            "kind": self.res_kind,
            "name": E.expr(self.name_node),
            "namespace": self.namespace,
            "owned": self.owned,
        }
        if not self.lookup:
            api["plural"] = self.plural
        if self.readonly:
            api["readonly"] = True
        spec = {
            "preconditions": [
                {
                    "assert": f"=simreached('{self.name}:pre', inputs)",
                    "permFail": {"message": "never"},
                },
                *[p.spec() for p in self.preds],
            ],
            "locals": {"probe": f"=simprobe('{self.name}', inputs)"},
            "apiConfig": api,
            "resource": E.render(self.target),
            "create": {"enabled": self.create, "delay": self.create_delay},
        }
        if self.ret is not None:
            spec["return"] = E.render(self.ret)
        if self.update == "never":
            spec["update"] = {"never": {}}
        else:
            spec["update"] = {self.update: {"delay": self.update_delay}}
        if self.posts:
            spec["postconditions"] = [p.spec() for p in self.posts]
        return spec


class Step:
    def __init__(self, **kw):
        self.label = self.ref = self.switch = self.skip_if = self.for_each = None
        self.inputs = {}
        self.condition = None
        self.state = None
        self.__dict__.update(kw)

    def spec(self):
        spec = {"label": self.label}
        if self.switch:
            spec["refSwitch"] = {
                "switchOn": E.expr(self.switch["on"]),
                "cases": [
                    {
                        "case": c["case"],
                        "kind": c["logic"].kind,
                        "name": c["logic"].name,
                        **({"default": True} if c.get("default") else {}),
                    }
                    for c in self.switch["cases"]
                ],
            }
        else:
            spec["ref"] = {"kind": self.ref.kind, "name": self.ref.name}
        if self.skip_if is not None:
            spec["skipIf"] = E.expr(self.skip_if)
        if self.for_each:
            spec["forEach"] = {
                "itemIn": E.expr(self.for_each["in"]),
                "inputKey": self.for_each["key"],
            }
        if self.inputs:
            spec["inputs"] = E.render(self.inputs)
        if self.condition:
            spec["condition"] = {"type": self.condition, "name": f"Step {self.label}"}
        if self.state is not None:
            spec["state"] = E.render(self.state)
        return spec

    def deps(self) -> set[str]:
        out = E.srefs(self.inputs)
        for node in (
            self.skip_if,
            self.for_each and self.for_each["in"],
            self.switch and self.switch["on"],
        ):
            if node:
                out |= E.refs(node)
        if self.state is not None:
            out |= E.srefs(self.state)
        return out

    def logics(self):
        return [c["logic"] for c in self.switch["cases"]] if self.switch else [self.ref]


class WF:
    kind = "Workflow"

    def __init__(self, name, steps):
        self.name, self.steps = name, steps
        self.broken = None  # what it is instead of being run
        self.extras = []  # (index, step which can not be prepared)

    def spec(self):
        steps = [s.spec() for s in self.steps]
        for at, extra in self.extras:
            steps.insert(at, extra)
        return {"steps": steps}


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

LABELS = [
    "alpha", "beta", "gamma", "delta", "eps", "zeta", "eta_1", "theta", "iota",
    "kappa", "lam", "mu_2", "map", "size", "parent", "steps", "namespace", "inputs",
    "omicron", "value",
]  # fmt: skip


class Options:
    rf_pct = 45
    vf_nonok_pct = 30
    foreach_pct = 18
    switch_pct = 15
    sub_pct = 12
    skip_pct = 20
    fail_pct = 8
    cond_pct = 80
    state_pct = 60
    max_steps = 7
    lookup_pct = 10
    situations = ("absent", "match", "match", "match", "drift", "decorated")
    readonly_pct = 12
    create_pct = 88
    post_pct = 10
    reuse_pct = 25
    long_pct = 5
    broken_pct = 5
    plain_pct = 10
    no_return_pct = 8

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise HarnessError(k)
            setattr(self, k, v)


def moods(ch, opts: "Options") -> "Options":
    """Half of the worlds are mostly healthy, so that long chains of Ok steps
    are reached; the others are rich in skips and failures."""
    if ch.chance(50):
        opts.vf_nonok_pct = 8
        opts.fail_pct = 2
        opts.skip_pct = 8
        opts.readonly_pct = 5
        opts.create_pct = 97
        opts.post_pct = 3
        opts.situations = ("match", "match", "match", "match", "decorated", "match", "absent", "drift")
    return opts


class World:
    def __init__(self, ctx: Ctx, opts: Options, stream="world"):
        self.ctx = ctx
        self.ch = ctx.stream(stream)
        self.opts = opts
        self.functions: list = []
        self.workflows: list[WF] = []
        self.n = 0
        self.cluster = Cluster(ctx)
        self.top: WF | None = None

    # -- functions ----------------------------------------------------------

    def gen_preds(self, env, marker, pct):
        ch = self.ch
        preds = []
        if ch.chance(pct):
            for i in range(ch.int(1, 3)):
                kind = ch.pick(["skip", "depSkip", "retry", "permFail", "ok"])
                node = ("lit", False) if ch.chance(45) else E.Gen(ch, env).gen("bool", 2)
                if ch.chance(6):
                    node = E.Gen(ch, env).fail("bool")
                preds.append(Pred(node, kind, ch.int(1, 90), f"{marker}p{i}"))
        return preds

    def new_vf(self) -> VF:
        ch = self.ch
        self.n += 1
        name = f"vf{self.n}"
        plain = ch.chance(self.opts.plain_pct)  # needs no inputs
        env = [] if plain else record_env("inputs")
        preds = self.gen_preds(env, name, self.opts.vf_nonok_pct)
        locals_ = {}
        lenv = list(env)
        if ch.chance(40):
            locals_["q"] = E.X(E.Gen(ch, env).gen("int", 2))
            lenv.append(("int", "locals", ("q",)))
        fail = ch.chance(self.opts.fail_pct)
        ret = {k: E.X(E.Gen(ch, lenv).gen(TYPES[k], 2)) for k in RECORD}
        if not plain:
            ret["x"] = E.X(("path", "inputs", (("x", 0),)))
            ret["id"] = E.X(("path", "inputs", (("id", 0),)))
        if fail:
            key = ch.pick(RECORD)
            ret[key] = E.X(E.Gen(ch, lenv).fail(TYPES[key]))
        if ch.chance(self.opts.no_return_pct):
            ret = None
        vf = VF(name, preds, locals_, ret)
        vf.plain = plain
        self.functions.append(vf)
        return vf

    def new_rf(self) -> RF:
        ch = self.ch
        o = self.opts
        self.n += 1
        name = f"rf{self.n}"
        env = record_env("inputs")
        plural = ch.pick(["widgets", "gadgets", "gizmos"])
        res_kind = plural[:-1].capitalize()
        self.cluster.define(API_VERSION, res_kind, plural)
        spec = {}
        for k in RECORD:
            spec[k] = E.X(E.Gen(ch, env).gen(TYPES[k], 2))
        if ch.chance(self.opts.fail_pct):
            key = ch.pick(RECORD)
            spec[key] = E.X(E.Gen(ch, env).fail(TYPES[key]))
        if ch.chance(40):
            spec["nested"] = {"list": [{"a": 1}, {"a": E.X(E.Gen(ch, env).gen("int", 1))}]}
        ret = {
            k: E.X(("path", "resource", (("spec", 0), (k, 0)))) for k in RECORD
        }
        ret["x"] = E.X(("path", "inputs", (("x", 0),)))
        ret["id"] = E.X(("path", "inputs", (("id", 0),)))
        posts = []
        if ch.chance(o.post_pct):
            posts = [
                Pred(
                    ("lit", False) if ch.bool() else E.Gen(ch, env).gen("bool", 1),
                    ch.pick(["retry", "permFail", "skip", "depSkip", "ok"]),
                    ch.int(1, 90),
                    f"{name}post",
                )
            ]
        if ch.chance(o.no_return_pct):
            ret = None
        rf = RF(
            name=name, preds=self.gen_preds(env, name, o.vf_nonok_pct // 2),
            posts=posts, res_kind=res_kind, plural=plural,
            name_node=("bin", "+", ("path", "inputs", (("id", 0),)), ("lit", f"-{name}")),
            namespace=ch.pick(["ns-a", "owner-ns"]),
            owned=not ch.chance(30),
            lookup=ch.chance(o.lookup_pct),
            readonly=ch.chance(o.readonly_pct),
            create=ch.chance(o.create_pct), create_delay=ch.int(0, 60),
            update=ch.weighted([("patch", 6), ("recreate", 2), ("never", 2)]),
            update_delay=ch.int(0, 60),
            target={"spec": spec}, ret=ret,
        )  # fmt: skip
        self.functions.append(rf)
        return rf

    def pick_logic(self, depth):
        ch, o = self.ch, self.opts
        if self.functions and ch.chance(o.reuse_pct):
            return ch.pick(self.functions)
        if depth < 2 and ch.chance(o.sub_pct):
            return self.new_workflow(depth + 1)
        return self.new_rf() if ch.chance(o.rf_pct) else self.new_vf()

    # -- workflows ----------------------------------------------------------

    def new_workflow(self, depth=0) -> WF:
        ch, o = self.ch, self.opts
        self.n += 1
        name = f"wf{self.n}"
        count = ch.int(1, o.max_steps if depth == 0 else 3)
        if not depth and ch.chance(o.long_pct):
            count = ch.int(12, 20)
        labels = ch.shuffle(LABELS)[:count]
        steps: list[Step] = []
        typed: list = []  # (label) with record results
        anys: list = []  # labels with any result
        for i, label in enumerate(labels):
            step = self.gen_step(label, i, typed, anys, depth, count)
            steps.append(step)
            anys.append(label)
            if not step.for_each and not any(
                isinstance(l, WF) or l.ret is None for l in step.logics()
            ):
                typed.append(label)
        wf = WF(name, steps)
        if depth and ch.chance(o.broken_pct):
            self.breaks(wf)
        self.workflows.append(wf)
        return wf

    def breaks(self, wf: WF):
        """It is there, but not ready."""
        ch = self.ch
        outs = []
        for i in range(ch.int(1, 2)):
            step = {"label": f"broken{i}", "ref": {"kind": "ValueFunction", "name": f"nosuch{i}"}}
            out = Out("retry", delay=15)
            if ch.bool():
                out = Out("permfail")
                step["inputs"] = {"a": f"=steps.{ch.pick(['broken9', f'broken{i}'])}.a"}
                step["ref"] = {"kind": "ValueFunction", "name": self.functions[0].name}
                if not isinstance(self.functions[0], VF):
                    step["ref"]["kind"] = "ResourceFunction"
            outs.append(out)
            wf.extras.append((ch.below(len(wf.steps) + 1), step))
        wf.broken = combine(outs)

    def gen_step(self, label, i, typed, anys, depth, count) -> Step:
        ch, o = self.ch, self.opts
        fan = ch.subset(typed, 45)[:3]
        env = record_env("parent")
        for other in fan:
            env = env + [(t, "steps", (other, *k)) for t, _, k in record_env("steps")] * 2
        step = Step(label=label)
        if ch.chance(o.switch_pct):
            cases = []
            names = ch.shuffle(["a", "bc", "xyz", "k8", "other", "", "0", " a", "a ", "A"])[: ch.int(1, 4)]
            default = ch.below(len(names) + 1)
            for j, case in enumerate(names):
                entry = {"case": case, "logic": self.pick_logic(depth)}
                if j == default:
                    entry["default"] = True
                cases.append(entry)
            senv = env + [("str", "inputs", ("s",))] * 2
            if ch.chance(60):
                on = ("lit", ch.pick(names)) if ch.bool() else ("path", "inputs", (("s", 0),))
            else:
                on = E.Gen(ch, senv).gen("str", 2)
            if ch.chance(4):
                on = E.Gen(ch, senv).fail("str")
            if ch.chance(3):
                on = ("lit", True)
            step.switch = {"on": on, "cases": cases}
        else:
            step.ref = self.pick_logic(depth)

        ident = label if depth == 0 else None
        id_node = (
            ("lit", label)
            if depth == 0
            else ("bin", "+", ("path", "parent", (("id", 0),)), ("lit", f"-{label}"))
        )
        inputs = {k: E.X(E.Gen(ch, env).gen(TYPES[k], 2)) for k in RECORD}
        inputs["id"] = E.X(id_node) if ident is None else ident
        inputs["d"] = [3, 1, 2][: ch.int(1, 3)] if ch.bool() else E.X(("path", "parent", (("d", 0),)))
        others = ch.subset(anys, 30)[:2]
        inputs["x"] = (
            {o_: E.X(("path", "steps", ((o_, ch.below(2)),))) for o_ in others}
            if others
            else ch.pick([0, "x", {"k": [1]}])
        )
        step.inputs = inputs
        if all(isinstance(l, VF) and l.plain for l in step.logics()) and ch.chance(60):
            step.inputs = {}

        if ch.chance(o.skip_pct):
            step.skip_if = (
                ("lit", True) if ch.chance(35) else E.Gen(ch, env).gen("bool", 2)
            )
            if ch.chance(6):
                step.skip_if = E.Gen(ch, env).fail("bool")
            elif ch.chance(4):
                step.skip_if = ("lit", ch.pick([1, "true", "x"]))
        elif step.inputs and ch.chance(o.fail_pct // 2):
            key = ch.pick(RECORD)
            step.inputs[key] = E.X(E.Gen(ch, env).fail(TYPES[key]))

        if ch.chance(o.foreach_pct):
            mode = ch.below(3)
            if mode == 0 or self.has_rf(step):
                # distinct object identities per item
                base = ("bin", "+", id_node, ("lit", "-i"))
                src = ("path", "parent", (("d", 0),)) if ch.bool() else ("lit", [4, 1, 3, 2][: ch.int(0, 4)])
                if ch.chance(10):
                    src = ("lit", self.many(ch))
                node = ("macro", "map", src, "it", ("bin", "+", base, ("string", ("var", "it"))))
                step.for_each = {"in": node, "key": "id"}
            elif mode == 1:
                step.for_each = {"in": E.Gen(ch, env).gen("ilist", 2), "key": "n"}
            else:
                step.for_each = {"in": E.Gen(ch, env).gen("ilist", 2), "key": "item"}
            if mode and not self.has_rf(step) and ch.chance(12):
                step.for_each["in"] = ("lit", self.many(ch))
            if ch.chance(4):
                step.for_each["in"] = E.Gen(ch, env).fail("ilist")
            elif ch.chance(3):
                step.for_each["in"] = ("lit", "notalist")

        if ch.chance(o.cond_pct):
            step.condition = f"Cond{label.title().replace('_', '')}"
            if ch.chance(10):
                step.condition = "CondShared"
        if ch.chance(o.state_pct):
            state = {}
            if ch.chance(70):
                state[f"v_{label}"] = E.X(("var", "value"))
            if ch.chance(50):
                state[ch.pick(["shared", "other"])] = ch.pick(
                    [label, E.X(("var", "value")), {label: 1}]
                )
            if label in () or (depth and ch.chance(60)):
                for k in RECORD:
                    state[k] = E.X(("lit", E.Gen(ch, []).literal(TYPES[k])))
            if ch.chance(4):
                state["bad"] = E.X(E.Gen(ch, []).fail("int"))
            step.state = state or None
        return step

    def many(self, ch):
        """More than ten: indices of different lengths."""
        return ch.shuffle(range(ch.int(11, 14)))

    def has_rf(self, thing) -> bool:
        if isinstance(thing, Step):
            return any(self.has_rf(l) for l in thing.logics())
        if isinstance(thing, WF):
            return any(self.has_rf(s) for s in thing.steps)
        return isinstance(thing, RF)

    def build(self):
        self.top = self.new_workflow(0)
        ch = self.ch
        self.trigger = {
            "id": "trig", "n": ch.int(0, 5), "s": ch.pick(E.WORDS), "b": ch.bool(),
            "l": [ch.int(0, 5) for _ in range(ch.int(0, 3))],
            "d": ch.shuffle([1, 2, 3, 4])[: ch.int(1, 4)],
            "x": {"deep": [{"k": "v"}]},
        }  # fmt: skip
        return self

    def describe(self) -> list[str]:
        out = []
        for f in self.functions:
            out.append(f"{f.kind} {f.name} {json.dumps(f.spec(), sort_keys=True)}")
        for w in self.workflows:
            out.append(f"Workflow {w.name} {json.dumps(w.spec(), sort_keys=True)}")
        return out

    # -- preparing with the real code ----------------------------------------

    async def prepare(self):
        from koreo.cache import get_resource_from_cache, prepare_and_cache
        from koreo.resource_function.prepare import prepare_resource_function
        from koreo.resource_function.structure import ResourceFunction
        from koreo.value_function.prepare import prepare_value_function
        from koreo.value_function.structure import ValueFunction
        from koreo.workflow.prepare import prepare_workflow
        from koreo.workflow.structure import Workflow

        kinds = {
            "ValueFunction": (ValueFunction, prepare_value_function),
            "ResourceFunction": (ResourceFunction, prepare_resource_function),
            "Workflow": (Workflow, prepare_workflow),
        }
        for thing in [*self.functions, *self.workflows]:
            cls, preparer = kinds[thing.kind]
            out = await prepare_and_cache(
                resource_class=cls,
                preparer=preparer,
                metadata={"name": thing.name, "resourceVersion": "1"},
                spec=thing.spec(),
            )
            if type(out).__name__ in ("PermFail", "Retry"):
                raise Refused(out, f"{thing.name}: {out}\n{thing.spec()}")
        return get_resource_from_cache(Workflow, self.top.name)


# --------------------------------------------------------------------------
# reference interpreter
# --------------------------------------------------------------------------


def subset_equal(target, actual) -> bool:
    """Plain target-subset comparison (no directives)."""
    if isinstance(target, dict):
        return isinstance(actual, dict) and all(
            k in actual and subset_equal(v, actual[k]) for k, v in target.items()
        )
    if isinstance(target, list):
        return (
            isinstance(actual, list)
            and len(target) == len(actual)
            and all(map(subset_equal, target, actual))
        )
    return E.same(target, actual)


class Interp:
    def __init__(self, world: World, objects: dict, situate=None):
        self.world = world
        self.objects = objects  # model of the cluster, mutated by a pass
        self.situate = situate  # fn(key, target, rf): decide initial contents
        self.evals: list[tuple[str, object]] = []  # Logic evaluations
        self.gets: list[tuple] = []
        self.mutations: list[tuple[str, tuple]] = []
        self.keys: dict[tuple, int] = {}
        self.steps_seen = 0
        self.outcomes: dict[str, Out] = {}
        #: where in the Workflow we are: ((workflow, label, iteration), ...)
        self.path: tuple = ()
        self.eval_paths: list[tuple] = []
        self.key_paths: dict[tuple, tuple] = {}
        self.published: list[tuple[str, dict]] = []  # top level step -> state

    def saw(self, label, inputs):
        self.evals.append((label, inputs))
        self.eval_paths.append(self.path)

    # -- functions ------------------------------------------------------------

    def vf(self, f: VF, inputs) -> Out:
        env = {"inputs": inputs}
        self.saw(f"{f.name}:pre", inputs)
        if out := eval_preds(f.preds, env):
            return out
        if f.ret is None:  # nothing else is needed
            return Out("ok", None)
        self.saw(f.name, inputs)
        try:
            env["locals"] = {"probe": inputs, **E.evs(f.locals, env)}
            return Out("ok", E.evs(f.ret, env))
        except E.EvalFail:
            return Out("permfail")

    def rf(self, f: RF, inputs) -> Out:
        env = {"inputs": inputs}
        self.saw(f"{f.name}:pre", inputs)
        if out := eval_preds(f.preds, env):
            return out
        self.saw(f.name, inputs)
        env["locals"] = {"probe": inputs}
        try:
            name = E.ev(f.name_node, env)
        except E.EvalFail:
            return Out("permfail")
        key = (API_VERSION, f.plural, f.namespace, name)
        self.keys[key] = self.keys.get(key, 0) + 1
        self.key_paths.setdefault(key, self.path)
        try:
            target = E.evs(f.target, env)
        except E.EvalFail:
            target = None
        if self.situate:
            self.situate(key, target, f)
        self.gets.append(key)
        live = self.objects.get(key)
        if live is None and (f.readonly or not f.create):
            return Out("retry", delay=30)
        if live is None or not f.readonly:
            if target is None:
                return Out("permfail")
        if live is None:
            self.mutations.append(("POST", key))
            self.objects[key] = self.created(f, key, target)
            return Out("retry", delay=f.create_delay)
        if not f.readonly:
            own = f.owned and f.namespace == OWNER[0]
            reffed = not own or any(
                r.get("uid") == OWNER[1]["uid"]
                for r in live["metadata"].get("ownerReferences") or ()
            )
            if not (subset_equal(target, live) and reffed):
                if f.update == "recreate":
                    self.mutations.append(("DELETE", key))
                    del self.objects[key]
                    return Out("retry", delay=f.update_delay)
                if f.update == "patch":
                    self.mutations.append(("PATCH", key))
                    from .cluster import merge_patch

                    live = merge_patch(live, target)
                    if not reffed:
                        live["metadata"].setdefault("ownerReferences", []).append(OWNER[1])
                    self.objects[key] = live
                    return Out("retry", delay=f.update_delay)
        env["resource"] = live
        if out := eval_preds(f.posts, env):
            return out
        if f.ret is None:
            return Out("ok", None)
        try:
            return Out("ok", E.evs(f.ret, env))
        except E.EvalFail:
            return Out("permfail")

    def created(self, f: RF, key, target):
        obj = copy.deepcopy(target)
        obj["apiVersion"], obj["kind"] = API_VERSION, f.res_kind
        meta = obj.setdefault("metadata", {})
        meta["name"], meta["namespace"] = key[3], key[2]
        if f.owned and f.namespace == OWNER[0]:
            meta["ownerReferences"] = [OWNER[1]]
        return obj

    # -- workflows --------------------------------------------------------------

    def logic(self, logic, inputs) -> Out:
        if isinstance(logic, VF):
            return self.vf(logic, inputs)
        if isinstance(logic, RF):
            return self.rf(logic, inputs)
        run = self.workflow(logic, inputs)
        if run.overall.cls == "ok":
            return Out("ok", run.state)
        return run.overall

    def step_logic(self, step: Step, inputs, env) -> Out:
        if step.switch:
            try:
                value = E.ev(step.switch["on"], {"inputs": inputs, **env})
            except E.EvalFail:
                return Out("permfail")
            if not isinstance(value, str):
                return Out("permfail")
            chosen = None
            for case in step.switch["cases"]:
                if case["case"] == value:
                    chosen = case["logic"]
            if chosen is None:
                for case in step.switch["cases"]:
                    if case.get("default"):
                        chosen = case["logic"]
            if chosen is None:
                return Out("permfail")
            return self.logic(chosen, inputs)
        return self.logic(step.ref, inputs)

    def step(self, step: Step, trigger, outs) -> Out:
        deps = step.deps()
        if any(outs[d].cls != "ok" for d in deps):
            return Out("depskip")
        env = {"parent": trigger}
        if deps:
            env["steps"] = {d: outs[d].value for d in deps}
        try:
            inputs = E.evs(step.inputs, env)
            if step.skip_if is not None:
                skip = E.ev(step.skip_if, env)
                if not isinstance(skip, bool):
                    return Out("permfail")
                if skip:
                    return Out("skip")
            if step.for_each:
                items = E.ev(step.for_each["in"], env)
                if not isinstance(items, list):
                    return Out("permfail")
        except E.EvalFail:
            return Out("permfail")
        if not step.for_each:
            return self.step_logic(step, inputs, env)
        results = []
        here = self.path
        for n, item in enumerate(items):
            self.path = (*here[:-1], (*here[-1][:2], n))
            results.append(
                self.step_logic(
                    step, {**copy.deepcopy(inputs), step.for_each["key"]: item}, env
                )
            )
        self.path = here
        errors = [r for r in results if r.error]
        if errors:
            return combine(errors)
        return Out("ok", [r.value if r.cls == "ok" else OPAQUE for r in results])

    def workflow(self, wf: WF, trigger) -> "Pass":
        if wf.broken:
            return Pass({}, wf.broken, [("Ready", REASON[wf.broken.cls])], {}, set())
        outs: dict[str, Out] = {}
        state: dict = {}
        conditions: list[tuple[str, str]] = []
        state_errors: set[str] = set()
        above = self.path
        for step in wf.steps:
            self.path = (*above, (wf.name, step.label, None))
            outs[step.label] = self.step(step, trigger, outs)
            self.steps_seen += 1
        self.path = above
        for step in wf.steps:
            out = outs[step.label]
            if step.condition:
                conditions.append((step.condition, REASON[out.cls]))
            if step.state is not None and out.cls == "ok":
                try:
                    value = E.evs(step.state, {"value": out.value})
                    state.update(value)
                    if not above:
                        self.published.append((step.label, value))
                except E.EvalFail:
                    state_errors.add(step.label)
        overall = combine(outs.values())
        conditions.append(("Ready", REASON[overall.cls]))
        return Pass(outs, overall, conditions, state, state_errors)


def needs(steps, label) -> set[str]:
    """Labels of `steps` that (transitively) reference `label`."""
    out = {label}
    for step in steps:
        if step.deps() & out:
            out.add(step.label)
    return out - {label}


class Pass:
    def __init__(self, outs, overall, conditions, state, state_errors):
        self.outs, self.overall, self.conditions = outs, overall, conditions
        self.state, self.state_errors = state, state_errors


# --------------------------------------------------------------------------
# running the real code
# --------------------------------------------------------------------------


class Observed:
    """What one real pass did, reduced to plain values."""

    def __init__(self, result, evals, api: SimApi):
        self.raw = result
        self.cls, self.value, self.delay, self.message = outcome_of(result.result)
        self.conditions = [(c["type"], c["reason"]) for c in result.conditions]
        self.full_conditions = [dict(c) for c in result.conditions]
        self.state = E.to_py(result.state)
        self.state_errors = dict(result.state_errors)
        self.resource_ids = plain(result.resource_ids)
        self.evals = evals
        self.api = api


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
        return v
    return str(v)


def outcome_of(out):
    name = type(out).__name__
    if name in ("Retry", "PermFail", "Skip", "DepSkip"):
        return name.lower(), None, getattr(out, "delay", None), out.message
    return "ok", E.to_py(out), None, None


async def run_pass(ctx: Ctx, workflow, trigger, api, key="wf-key", owner=OWNER):
    from koreo.workflow.reconcile import reconcile_workflow

    evals: list = []

    def hook(label, value):
        evals.append((label, E.to_py(value)))
        ctx.event()
        ctx.log(f"  eval {label} {json.dumps(evals[-1][1], sort_keys=True)[:160]}")

    boot.set_probe(hook)
    try:
        result = await reconcile_workflow(
            api=api,
            workflow_key=key,
            owner=copy.deepcopy(owner),
            trigger=E.to_cel(copy.deepcopy(trigger)),
            workflow=workflow,
        )
    finally:
        boot.set_probe(None)
    return Observed(result, evals, api)


def situator(world: World, objects: dict, opts: Options, stream):
    """Decide, the first time an object is needed, what the cluster holds."""
    seen = set()

    def situate(key, target, rf: RF):
        if key in seen:
            return
        seen.add(key)
        kind = stream.pick(opts.situations)
        if kind == "absent" or target is None:
            if stream.chance(80) or target is None:
                return
        full = {
            "apiVersion": API_VERSION,
            "kind": rf.res_kind,
            "metadata": {"name": key[3], "namespace": key[2], "uid": f"uid-{len(seen)}"},
            **copy.deepcopy(target or {}),
        }
        if rf.owned and key[2] == OWNER[0] and not stream.chance(10):
            full["metadata"]["ownerReferences"] = [copy.deepcopy(OWNER[1])]
        if kind == "drift":
            field = stream.pick(RECORD)
            full["spec"][field] = drift_value(full["spec"][field])
        if kind == "decorated":
            full["status"] = {"ready": True, "list": [1, 2]}
            full["spec"]["serverSide"] = {"z": None, "defaulted": 1}
            full["metadata"]["generation"] = 7
        objects[key] = full

    return situate


def interpret(world: World, opts: Options, stream, interp=Interp):
    """Reference pass over a freshly situated cluster.
    Returns (interp, expected pass, initial objects)."""
    objects: dict = {}
    initial: dict = {}
    inner = situator(world, objects, opts, stream)

    def situate(key, target, rf):
        before = key in objects
        inner(key, target, rf)
        if not before and key in objects and key not in initial:
            initial[key] = copy.deepcopy(objects[key])

    ref = interp(world, objects, situate)
    expected = ref.workflow(world.top, world.trigger)
    return ref, expected, initial


def drift_value(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        return v + "-drift"
    if isinstance(v, list):
        return v + [9]
    return "drift"
