"""C14: static reference analysis finds every named dependency."""

from __future__ import annotations

import copy
import json

from ..core import Ctx, HarnessError, Violation
from .. import boot, expr as E, reload
from ..cluster import Cluster, Plan, SimApi
from ..world import OWNER, outcome_of

PROP = "C14"
LEVEL = "exploration"
COUNTS = {"quick": 6000, "thorough": 150000}
RULE = (
    "Three kinds of scenario. (1) A Workflow whose expression fields (inputs at any depth, skipIf, "
    "forEach, switchOn, state) name prior steps in every syntactic way and context (nested calls, "
    "macros, conditionals, literals, indexing) is prepared, its dependency sets are compared with the "
    "names the generator wrote, and it is run under random request latencies: everything named must "
    "have been there; then one reference is made to name a later, unknown or the step's own label and "
    "nothing may run. (2) Definitions of every kind that name Functions and Workflows which are "
    "present, absent, broken: what they watch. (3) Real definitions naming one another are offered, "
    "changed, broken, deleted and offered again by concurrent actors; when quiet each must behave as "
    "the latest versions say. Non-trivial: something names something."
)
STATE_MEASURE = "distinct (part, field, context, how it is named / kind, health) combinations"
REAL = [
    "koreo.cel", "koreo.workflow", "koreo.resource_function", "koreo.value_function", "koreo.function_test",
    "koreo.cache", "koreo.registry", "celpy", "kr8s object classes",
]  # fmt: skip
STUB = ["HTTP transport and API server", "event loop selector, clock"]
ASSUMPTIONS = [
    "a name is static when it is a member name or a string literal, also in parentheses",
    "a macro variable called `steps` does not hide the steps from the analysis (over-approximation is fine)",
    "a definition whose own expressions do not parse (PermFail) reports nothing to watch",
]

LABELS = ["alpha", "beta", "gamma", "delta", "eps", "map", "size", "steps", "parent", "inputs", "value",
          "eta_1", "has", "x9y", "all", "state", "Kappa", "resource", "true1", "type"]  # fmt: skip
#: only reachable by indexing
ODD = ["123", "été", "in_", "for", "null_1", "9lives"]
RESERVED = {"in", "true", "false", "null", "for", "if", "let", "as", "break", "const", "continue", "else",
            "function", "import", "loop", "package", "namespace", "return", "var", "void", "while"}  # fmt: skip

#: how a step is named
NAMINGS = [
    ("dot", "steps.{L}"), ("single", "steps['{L}']"), ("double", 'steps["{L}"]'), ("paren", "(steps).{L}"),
    ("paren-index", "(steps)['{L}']"), ("spaced", "steps . {L}"), ("spaced-index", "steps [ '{L}' ]"),
    ("paren-key", "steps[('{L}')]"), ("raw", "steps[r'{L}']"), ("triple", "steps['''{L}''']"),
    ("wrapped", "(steps.{L})"), ("double-paren", "((steps)).{L}"), ("triple-double", 'steps["""{L}"""]'),
    ("escaped", "steps['{E}']"), ("unicode", "steps['{U}']"), ("newline", "steps\n.{L}"), ("raw-double", 'steps[R"{L}"]'),
    ("leading-dot", ".steps.{L}"), ("leading-dot-index", ".steps['{L}']"), ("leading-dot-paren", "(.steps).{L}"),
]  # fmt: skip

#: type -> contexts; {R} a reference, {I} {S} {B} {L} typed sub-expressions
SHAPES = {
    "I": [
        "{R}.n", "{R}['n']", '{R}["n"]', "({R}).n", "{R}.l[0]", "{R}.m.k", "{R}.m['k']", "{R}.m['a-b']",
        "{R}.m.deep.list[0].x", "{R}['m']['deep']['list'][0]['x']", "size({R}.l)", "{R}.l.size()", "size({R})",
        "{R}.m[{S}]", "inputs_or_parent.m[{S}]", "{R}.l[{I} * 0]", "({I} + {I})", "({I} * {I} - {I})",
        "({I} / ({I} * 0 + 3) % 7)", "-{I}", "({B} ? {I} : {I})", "({B} ? 1 : {I})", "(false ? 0 : {I})", "[1, 2].map(q, q + {I})[0]",
        "[{I}, 2].map(q, q)[0]", "[[1].map(q, [2].map(r, q + r + {I}))][0][0][0]", "{'k': {I}}.k", "{'k': {I}}['k']",
        "{'k': 1, 'j': {'i': [{I}]}}.j.i[0]", "[{I}][0]", "[1, {I}, 3][1]", "{{S}: {I}}[{S}]", "[{I}, {I}][{I} * 0]",
        "int({I})", "int(string({I}))", "dyn({I})", "size({S})", "{S}.size()", "overlay({'a': 1}, {'a': {I}}).a",
        "overlay({R}.m, {'k': {I}}).k", "{R}.m.overlay({'k': {I}}).k", "flatten([[{I}]])[0]", "{R}.l.map(q, q + {I})[0]", "{R}.l.filter(q, q == {I} || true)[0]",
        "{R}.l.filter(q, true).map(r, r + {I})[0]", "size([{R}, {R}])", "[{R}].map(q, q.n)[0]", "[{R}].map(q, q)[0].n",
        "{'a': {R}}.a.n", "{'a': {R}}['a'].n", "[{R}][0].n", "({B} ? {R} : {R}).n", "overlay({R}, {'n': {I}}).n", "({I})",
        "[{I}].map(q, {'v': {I}})[0].v", "(has({R}.m.k) ? {I} : 0)", "from_json(to_json({R})).n", "from_json(to_json({'v': {I}})).v",
        "{R}.m.map(q, {I})[0]", "[1].map(alpha, alpha + {I})[0]", "int(double({I}))", "size(split({S}, {S}))", "int(duration('1s') < duration('2s') ? {I} : 0)",
    ],
    "S": [
        "{R}.s", "{R}['s']", "string({I})[0 + 0] == 'x' ? 'k' : {R}.s", "({B} ? {R}.s : {R}.s)", "('' + {R}.s)",
        "lower({R}.s)", "{R}.s.lower()", "split({R}.s + ',z', ',')[0]", "split_first({R}.s + ',z', ',')",
        "{R}.s.replace('zz', string({I}))", "replace({R}.s, string({I}), 'k')", "({R}).s", "['x', {R}.s][1]", "{'a': {R}.s}.a",
        "[{R}.s].map(q, q)[0]", "{R}.s.split(',')[0]", "strip({R}.s + ' ', ' ')",
    ],
    "B": [
        "{R}.b", "!{R}.b == false", "{I} == {I}", "({I} == {I} || true)", "({I} < {I} || true)", "({S} == {S})", "{S} in {R}.m", "'k' in {R}.m",
        "({I} in {R}.l || true)", "{R}.l.all(q, q + {I} != q || true)", "{R}.l.exists(q, q == {I} || true)",
        "[1].exists_one(q, q == {I} || true)", "{S}.startsWith({S})", "{S}.endsWith({S})", "{S}.contains({S})",
        "{S}.matches({S})", "({B} && {B})", "({B} || {B})", "has({R}.m)", "has({R}.m.k)", "has({R}.m.deep.list)", "!(!{B})",
        "({B} ? {B} : {B})", "({R} == {R})", "({R}.n == {I} ? true : true)", "(false || {B})", "(true && {B})", "[{B}].all(q, q)",
        "({I} in [{I}, {I}] || true)", "({S} in {{S}: {I}})", "size({R}.l) > 0", "type({I}) == int", "{R}.m != {'z': {I}}",
    ],
    "L": [
        "{R}.l", "[{I}]", "[{I}, {I}]", "{R}.l + [{I}]", "{R}.l.map(q, q)", "{R}.l.map(q, q + {I})", "({B} ? {R}.l : [{I}])",
        "{R}.l.filter(q, q != {I} || true)", "flatten([{R}.l, [{I}]])", "[1].map(q, {I})", "[{R}.n]", "{R}.m.deep.list",
        "[{R}].map(q, q.n)",
    ],
    "A": ["{R}", "[{R}]", "{'k': {R}}", "[1].map(q, {R})", "[1].map(q, [2].map(r, {'v': {R}}))", "({B} ? {R} : {I})", "{R}.m", "{I}", "{S}", "{B}", "{L}",
          "{{S}: {R}}", "[{R}, {R}]", "{R}.m.deep", "overlay({R}.m, {R})", "to_json({R})", "dyn({R})", "{R}.m.deep.list.map(q, q.x + {I})"],
}  # fmt: skip
#: contexts that need not evaluate to anything
UNRUN = [
    "{R}.nosuch.f(1)[2]", "nosuch({R})", "nosuch(1, [{R}])", "x.nosuch({R}.a)", "{R}.a.nosuch({R}.b).c", "{R}[0][1].x['y']", "{R}.a in {R}.b",
    "{R} ? 1 : 2", "1 + {R}.n * {R}.a % 2 - -{R}.z", "a.b[{R}.c]", "a[{R}].b[{R}['q']]", "{{R}.a: {R}.b}", "has({R}.x.y.z)", "'x'[{R}.i]", "(1 + {R}.n).foo",
    "[1, 2][{R}.n].z", "{'a': 1}[{R}.s].y", "f(g(h({R})))", "{R}.map(q, q.x[{R}.y])", "{R}.all(q, {R}.exists(r, q == r || {R}.b))", "{R} == null",
    "null == {R}.x", "!{R}.x || !{R}.y", "{R}.x >= {R}.y && {R}.z <= 1.5", "Msg{field: {R}.x}", "a.b.Msg{f: 1, g: {R}}.h", "[].map(q, {R})", "{R}.a.b.c.d.e.f.g",
    "f().g({R})", "f()[{R}]", "(a ? b : c)[{R}.x].y", "b'x' + {R}", "{R}.startsWith('a')", "1.5 < {R}.x", "0x1F + {R}.x", "2u + {R}.x", "x ? {R}.a : y ? {R}.b : z", "(x ? 1 : 2) + ({R}.a)",
    "type({R})", "size({R}) > 1 ? 'a' : 'b'", "{R}.a.map(q, q > 1, q)",
]  # fmt: skip


class Refs:
    """Writes expressions and keeps account of what they name."""

    def __init__(self, ch, ctx):
        self.ch, self.ctx = ch, ctx
        self.named: set = set()
        self.forced = None

    def reference(self, labels):
        ch = self.ch
        label = ch.pick(labels)
        if self.forced:
            label, self.forced = self.forced, None
        how, text = ch.weighted([(NAMINGS[0], 8), (NAMINGS[1], 5), (NAMINGS[2], 3), *[(n, 1) for n in NAMINGS[3:]]])
        plain = label.isascii() and label.isidentifier() and label not in RESERVED
        if not plain and ("{L}" not in text or "." in text):
            how, text = NAMINGS[1]
        self.named.add(label)
        escaped = f"\\x{ord(label[0]):02x}{label[1:]}"
        uni = label[:-1] + f"\\u{ord(label[-1]):04x}"
        self.how = how
        return text.replace("{L}", label).replace("{E}", escaped).replace("{U}", uni)

    def write(self, type_, labels, depth=2):
        """Text of an expression of a type, which names at least one step."""
        ch = self.ch
        options = SHAPES[type_]
        if depth <= 0:
            options = [o for o in options if "{R}" in o and not any(h in o for h in ("{I}", "{S}", "{B}", "{L}"))]
        return self.fill(ch.pick(options), labels, depth)

    def fill(self, shape, labels, depth):
        self.shape = shape
        out, i = [], 0
        while i < len(shape):
            hole = shape[i : i + 3]
            if hole == "{R}":
                out.append(self.reference(labels))
                i += 3
            elif hole in ("{I}", "{S}", "{B}", "{L}"):
                inner = self.write(hole[1], labels, depth - 1)
                out.append(f"({inner})" if hole in ("{B}", "{L}") or self.ch.bool() else inner)
                i += 3
            else:
                out.append(shape[i])
                i += 1
        self.shape = shape
        return "".join(out).replace("inputs_or_parent", "parent")

    def anything(self, labels, runs):
        if not runs and self.ch.chance(50):
            return self.fill(self.ch.pick(UNRUN), labels, 1)
        return self.write("A", labels, self.ch.int(0, 2))


RECORD = {
    "n": 2, "s": "k", "b": True, "l": [2, 5],
    "m": {"k": 2, "a-b": 4, "deep": {"list": [{"x": 3}]}},
}  # fmt: skip


def embed(ch, leaf):
    """Somewhere in a structure."""
    for _ in range(ch.weighted([(0, 4), (1, 3), (2, 2), (3, 1)])):
        k = ch.below(5)
        leaf = (
            {"k": leaf} if k == 0 else [leaf] if k == 1 else {"a": 1, "b": leaf, "c": "text"}
            if k == 2 else ["text", leaf, {"z": None}] if k == 3 else {"x.y/z": [leaf, "it's"]}
        )  # fmt: skip
    return leaf


class Program:
    def __init__(self, ctx: Ctx, runs: bool):
        self.ctx, self.runs = ctx, runs
        self.ch = ch = ctx.stream("gen")
        count = ch.int(2, 7)
        pool = ch.shuffle(LABELS) if not ch.chance(25) else ch.shuffle(LABELS[:4] + ODD)
        self.labels = [l for l in pool if len(l) >= 3][:count]
        self.expected = {}
        self.fields = {}
        self.steps = []
        self.foreach = set()
        for i, label in enumerate(self.labels):
            self.steps.append(self.step(i, label))

    def step(self, i, label):
        ch = self.ch
        prior = [l for l in self.labels[:i] if l not in self.foreach]
        refs = Refs(ch, self.ctx)
        logic = "rec" if ch.chance(70) else "res"
        out = {"label": label, "inputs": {"id": f"id:{label}"}}
        sites = []
        if prior:
            sites = ch.subset(["inputs", "inputs2", "skipIf", "forEach", "switchOn", "state"], 40) or ["inputs"]
        for site in sites:
            if self.runs and site == "state":
                continue  # has no steps when it is evaluated
            self.put(out, site, refs, prior)
        self.logic(out, logic, i)
        if "forEach" in out:
            self.foreach.add(label)
        self.expected[label] = refs.named
        return out

    def put(self, out, site, refs, labels):
        ch = self.ch
        if site in ("inputs", "inputs2"):
            text = refs.anything(labels, self.runs)
            key = ch.pick([k for k in ("v", "w", "long-name", "x") if k not in out["inputs"]])
            out["inputs"][key] = embed(ch, f"={text}")
        elif site == "skipIf":
            text = refs.write("B", labels, ch.int(0, 2)) if self.runs or ch.bool() else refs.fill(ch.pick(UNRUN), labels, 1)
            out["skipIf"] = f"=({text}) && false" if self.runs else f"={text}"
        elif site == "forEach":
            text = refs.write("L", labels, ch.int(0, 2)) if self.runs or ch.bool() else refs.fill(ch.pick(UNRUN), labels, 1)
            out["forEach"] = {"itemIn": f"={text}", "inputKey": "item"}
        elif site == "switchOn":
            text = refs.write("S", labels, ch.int(0, 2)) if self.runs or ch.bool() else refs.fill(ch.pick(UNRUN), labels, 1)
            out["switchOn"] = f"={text}"
        elif site == "state":
            out["state"] = {"st": embed(ch, f"={refs.anything(labels, False)}")}
        self.ctx.state(f"ref:{site}:{refs.shape}:{refs.how}")

    def logic(self, out, name, i):
        ref = {"kind": "ResourceFunction" if name == "res" else "ValueFunction", "name": name}
        if "switchOn" in out:
            out["refSwitch"] = {
                "switchOn": out.pop("switchOn"),
                "cases": [{"case": "other", **ref}, {"case": "k", **ref, "default": True}],
            }
        else:
            out["ref"] = ref


def functions():
    rec = {"locals": {"p": "=simprobe('rec', inputs)"}, "return": RECORD}
    res = {
        "apiConfig": {
            "apiVersion": "sim.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "owned": False,
            "name": "thing", "namespace": "ns-a",
        },
        "locals": {"p": "=simprobe('res', inputs)"},
        "resource": {"spec": {"x": 1}},
        "return": RECORD,
    }  # fmt: skip
    return rec, res


async def prepare_functions():
    from koreo.cache import prepare_and_cache
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.structure import ResourceFunction
    from koreo.value_function.prepare import prepare_value_function
    from koreo.value_function.structure import ValueFunction

    rec, res = functions()
    for cls, preparer, name, spec in (
        (ValueFunction, prepare_value_function, "rec", rec),
        (ResourceFunction, prepare_resource_function, "res", res),
    ):
        out = await prepare_and_cache(
            resource_class=cls, preparer=preparer, metadata={"name": name, "resourceVersion": "1"}, spec=spec
        )
        if type(out).__name__ in ("PermFail", "Retry"):
            raise Violation("refused", f"{name}: {out}")


async def prepare(spec, name="wf"):
    from koreo.workflow.prepare import prepare_workflow

    out = await prepare_workflow(name, copy.deepcopy(spec))
    if not isinstance(out, tuple):
        raise Violation("refused", f"{json.dumps(spec)}: {out}")
    return out


def error(outcome):
    return type(outcome).__name__ in ("PermFail", "Retry")


async def reconcile(ctx, workflow, cluster):
    from koreo.workflow.reconcile import reconcile_workflow

    net = ctx.stream("net")
    evals = []
    boot.set_probe(lambda label, value: evals.append((label, E.to_py(value))))

    def policy(call):
        return Plan(turns=net.below(3), before=net.below(50) / 100, after=net.below(50) / 100)

    api = SimApi(ctx, cluster, policy)
    try:
        out = await reconcile_workflow(
            api=api, workflow_key="wf-key", owner=copy.deepcopy(OWNER), trigger=E.to_cel(copy.deepcopy(RECORD)),
            workflow=workflow,
        )  # fmt: skip
    finally:
        boot.set_probe(None)
    return out, evals, api


def written(step):
    """Text of all expressions of a step."""
    return json.dumps(step)


def program(ctx: Ctx):
    runs = ctx.stream("part").chance(55)
    p = Program(ctx, runs)
    spec = {"steps": p.steps}
    ctx.log(json.dumps(spec, sort_keys=True))
    ch = p.ch

    async def go():
        await prepare_functions()
        workflow, watched = await prepare(spec)
        if error(workflow.steps_ready):
            raise Violation("not-ready", f"{workflow.steps_ready}: {json.dumps(spec)}")
        for step, prepared in zip(p.steps, workflow.steps):
            missing = p.expected[step["label"]] - {str(k) for k in prepared.dynamic_input_keys}
            if missing:
                raise Violation(
                    "dependency-missed", f"{step['label']} names {missing}, recorded {prepared.dynamic_input_keys}: {json.dumps(step)}"
                )
            if p.expected[step["label"]]:
                ctx.nontrivial = True
        cluster = Cluster(ctx)
        cluster.define("sim.koreo.dev/v1", "Widget", "widgets")
        cluster.put(
            ("sim.koreo.dev/v1", "widgets", "ns-a", "thing"),
            {"apiVersion": "sim.koreo.dev/v1", "kind": "Widget", "metadata": {"name": "thing", "namespace": "ns-a"}, "spec": {"x": 1}},
        )
        if runs:
            out, evals, api = await reconcile(ctx, workflow, cluster)
            if outcome_of(out.result)[0] != "ok":
                raise Violation("not-there", f"{out.result}: {json.dumps(spec)}")
            done = {inputs["id"] for _, inputs in evals}
            wanted = {f"id:{l}" for l in p.labels if l not in p.foreach}
            if wanted - done:
                raise Violation("did-not-run", f"{wanted - done}: {json.dumps(spec)}")

        # the same program, with one reference to something which is not before it
        at = ch.below(len(p.steps))
        label = p.labels[at]
        wrong = ch.pick([label, "nosuchstep", "unkn0wn", *p.labels[at + 1 :]])
        broken = copy.deepcopy(p.steps)
        step = broken[at]
        refs = Refs(ch, ctx)
        refs.forced = wrong
        prior = p.labels[:at] or [wrong]
        site = ch.pick(["inputs", "skipIf", "forEach", "state", "switchOn"])
        kind = step.get("ref") or {k: step["refSwitch"]["cases"][0][k] for k in ("kind", "name")}
        p.put(step, site, refs, prior)
        if site == "switchOn":
            step.pop("ref", None)
            step.pop("refSwitch", None)
            p.logic(step, kind["name"], at)
        ctx.log(f"wrong: {json.dumps(step)}")
        workflow, watched = await prepare({"steps": broken}, "wf2")
        if not error(workflow.steps_ready):
            raise Violation("not-rejected", f"{label} names {wrong}: {json.dumps(step)}")
        ctx.state(f"wrong:{site}:{'own' if wrong == label else 'later' if wrong in p.labels else 'unknown'}")
        out, evals, api = await reconcile(ctx, workflow, cluster)
        if evals or api.calls:
            raise Violation("ran-not-ready", f"{evals} {api.calls}: {json.dumps(step)}")
        if outcome_of(out.result)[0] not in ("permfail", "retry"):
            raise Violation("ran-not-ready", f"{out.result}: {json.dumps(step)}")

    return ctx.run(go)


KINDS = ("ValueFunction", "ResourceFunction", "Workflow")


async def cached(kind, name, health):
    """Something of a kind, in some state of health."""
    from koreo.cache import prepare_and_cache
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.structure import ResourceFunction
    from koreo.value_function.prepare import prepare_value_function
    from koreo.value_function.structure import ValueFunction
    from koreo.workflow.prepare import prepare_workflow
    from koreo.workflow.structure import Workflow

    cls, preparer, field, spec = {
        "ValueFunction": (ValueFunction, prepare_value_function, "return", {"return": RECORD}),
        "ResourceFunction": (ResourceFunction, prepare_resource_function, "return", functions()[1]),
        "Workflow": (
            Workflow, prepare_workflow, "steps",
            {"steps": [{"label": "only", "ref": {"kind": "ValueFunction", "name": "some-name"}}]},
        ),
    }[kind]  # fmt: skip
    spec = copy.deepcopy(spec)
    spec.pop("locals", None)
    if health == "schema":
        spec[field] = "nonsense"
    elif health == "expression":
        if kind == "Workflow":
            spec["steps"][0]["skipIf"] = "=1 +"
        else:
            spec["return"] = {"x": "=1 +"}
    await prepare_and_cache(
        resource_class=cls, preparer=preparer, metadata={"name": name, "resourceVersion": "1"}, spec=spec
    )


def watching(ctx: Ctx):
    """What a definition reports to watch, whatever the state of what it names."""
    ch = ctx.stream("gen")
    names = ["some-name", "other.name", "third", "a"]
    healths = {
        (kind, name): ch.weighted([("absent", 3), ("fine", 3), ("schema", 1), ("expression", 1)])
        for kind in KINDS for name in names
    }  # fmt: skip
    kind = ch.weighted([("Workflow", 6), ("ResourceFunction", 3), ("FunctionTest", 2)])
    named = set()

    def ref(kinds):
        key = (ch.pick(kinds), ch.pick(names))
        named.add(key)
        return {"kind": key[0], "name": key[1]}

    if kind == "Workflow":
        steps = []
        for i in range(ch.int(1, 6)):
            step = {"label": f"step_{i}", "inputs": {"x": "=parent.x"}}
            if ch.bool():
                step["ref"] = ref(KINDS)
            else:
                cases = [{"case": f"c{j}", **ref(KINDS)} for j in range(ch.weighted([(1, 2), (2, 3), (3, 2), (8, 1)]))]
                if ch.bool():
                    ch.pick(cases)["default"] = True
                step["refSwitch"] = {"switchOn": ch.pick(["=inputs.x", "='c0'", "=parent.y"]), "cases": cases}
            for site, value in (
                ("skipIf", "=parent.b"), ("forEach", {"itemIn": "=parent.l", "inputKey": "item"}),
                ("state", {"s": "=value"}), ("condition", {"type": "Cond", "name": "a name"}),
            ):  # fmt: skip
                if ch.chance(20):
                    step[site] = value
            if steps and ch.chance(12):
                # not to be run, but its logic is still named
                step["inputs"]["late"] = f"=steps.{ch.pick([step['label'], 'nosuch', 'step_9'])}"
            steps.append(step)
        spec = {"steps": steps}
    elif kind == "ResourceFunction":
        spec = functions()[1]
        spec["overlays"] = []
        for _ in range(ch.int(1, 5)):
            entry = {"overlay": {"spec": {"y": "=inputs.x"}}} if ch.chance(25) else {"overlayRef": ref(["ValueFunction"])}
            if "overlayRef" in entry and ch.chance(40):
                entry["inputs"] = {"z": "=inputs.x"}
            if ch.chance(40):
                entry["skipIf"] = ch.pick(["=inputs.b", "=false", "=locals.x"])
            spec["overlays"].append(entry)
        if ch.chance(20):
            spec["create"] = {"enabled": True, "overlay": {"spec": {"q": 1}}}
    else:
        target = ref(["ValueFunction", "ResourceFunction"])
        spec = {"functionRef": target, "testCases": [{"expectOutcome": {"skip": {"message": ""}}}]}
        if ch.bool():
            spec["inputs"] = {"x": 1}
    for key in healths:
        if key in named or ch.chance(30):
            pass
        else:
            healths[key] = "absent"
    ctx.log(f"{kind} {json.dumps(spec)} {sorted(f'{k}:{n}={h}' for (k, n), h in healths.items() if h != 'absent')}")

    async def go():
        from koreo.function_test.prepare import prepare_function_test
        from koreo.resource_function.prepare import prepare_resource_function
        from koreo.workflow.prepare import prepare_workflow

        for key in ch.shuffle(sorted(healths)):
            if healths[key] != "absent":
                await cached(*key, healths[key])
        preparer = {
            "Workflow": prepare_workflow, "ResourceFunction": prepare_resource_function,
            "FunctionTest": prepare_function_test,
        }[kind]  # fmt: skip
        out = await preparer("the-definition", copy.deepcopy(spec))
        if not isinstance(out, tuple):
            raise Violation("refused", f"{kind} {json.dumps(spec)}: {out}")
        watched = {(r.resource_type.__name__, r.name) for r in out[1] or ()}
        if missing := named - watched:
            raise Violation("not-watched", f"{kind} {json.dumps(spec)} does not report {sorted(missing)}: {sorted(watched)}")
        for key in named:
            ctx.state(f"watch:{kind}:{key[0]}:{healths[key]}")
            ctx.nontrivial = True

    return ctx.run(go)


def scenario(ctx: Ctx):
    part = ctx.stream("part").below(20)
    if part < 6:
        return reload.scenario(ctx)
    if part < 9:
        return watching(ctx)
    return program(ctx)
