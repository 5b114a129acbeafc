"""C11: static values in definitions reach results and resources unchanged."""

from __future__ import annotations

import asyncio
import copy
import json
import re

from ..core import Ctx, HarnessError, Violation
from .. import expr as E
from ..cluster import Cluster, Plan, SimApi
from ..rfsim import LAST_APPLIED, has_null
from ..world import OWNER, outcome_of, run_pass

PROP = "C11"
LEVEL = "exploration"
COUNTS = {"quick": 8000, "thorough": 80000}
RULE = (
    "One scenario: generated JSON literals (strings of all syntactic classes: quotes, backslashes, escapes, "
    "control characters, newlines, unicode, numeral look-alikes; 64-bit integers, floats, nulls, nested "
    "containers, hostile keys) are written into returns, locals, inline resources, templates, inline and "
    "function overlays, create overlays, step inputs and state; the real definitions are prepared and "
    "reconciled against the simulated API server, created, re-read, patched after drift under latency, "
    "request errors and lost answers, and every place the literal ends up is compared. Non-trivial: always."
)
STATE_MEASURE = "distinct (place, string/number class) pairs carried"
REAL = [
    "koreo.cel", "koreo.value_function", "koreo.resource_function", "koreo.resource_template",
    "koreo.workflow", "koreo.function_test", "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "integers fit 64 bits, floats are finite (JSON)",
    "numerals without digits before or after the point ('.5', '1.') and numeral strings outside the "
    "64-bit/finite range are open",
    "numbers are compared as numbers (1 and 1.0 are the same number)",
]

NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?", re.ASCII)

PIECES = [
    "a", "b ", " ", '"', "'", "\\", "\\n", "\\\\", "\n", "\t", "\r", "\r\n", '"""', "'''", "{", "}", "[", "]", "$", "%s",
    "=", "r", "b'", "//", "#", "\\x41", "\\u0041", "\\101", "\\\"", "\\'", "é", "☃", "\U0001f600", "\u2028", "\x00",
    "\x7f", "1", "-", ".", "_", "e", ",", ":", "null", "true", "inputs.x", "\ufeff", "\u0301", "`", "\\8", "\\u12",
    "\\", "?", "&&", "\x0b", "\x0c", "\x1b", "\x85", "\xa0",
]  # fmt: skip
WHOLE = [
    "", "plain", "nan", "NaN", "inf", "-inf", "Infinity", "+7", " 7", "7 ", "1_000", "\u0661\u0662", "0x10", "1e", "e5",
    "-", "--1", "+", "1e5x", "1.2.3", "10.0.0.1", "1,5", "true", "false", "null", "None", "1 2", "1/2", "1m", "5\n", "\n5",
    "\u00b2", "1__0", "1e1_0", "infinity", "0b1", "1L", "1u", "1f", "\t1", "-\u0663", "\uff11", "- 1", "nan ", "2024-01-01",
]  # fmt: skip
NUMERALS = [
    "1", "0", "-1", "1.5", "-1.5", "1e5", "1E5", "1e+5", "1e-5", "1.5e3", "-2.5E-3", "007", "-0", "0.0", "9223372036854775807",
    "00", "-007", "1.50", "0e0", "100", "3.0", "00.5", "-9223372036854775808", "1e05",
]  # fmt: skip
INTS = [0, 1, -1, 7, 255, 2**31, -(2**31), 2**53 + 1, 2**63 - 1, -(2**63), -(2**63) + 1, 10**18]
FLOATS = [0.1, 1.5, -1.5, 1.0, 1e16, 1e22, 1e300, 1e-7, 5e-324, 123456789.123456789, -0.0, 1e-300, 2.5e-8, 1e15, -1e21]


class Lits:
    def __init__(self, ctx, ch):
        self.ctx, self.ch = ctx, ch

    def string(self):
        ch = self.ch
        kind = ch.weighted([("pieces", 6), ("whole", 4), ("numeral", 2), ("long", 1)])
        if kind == "whole":
            out = ch.pick(WHOLE)
        elif kind == "numeral":
            out = ch.pick(NUMERALS)
        elif kind == "long":
            out = "".join(ch.pick(PIECES) for _ in range(ch.int(20, 60)))
        else:
            out = "".join(ch.pick(PIECES) for _ in range(ch.int(1, 5)))
        if out.startswith("=") or re.fullmatch(r"[-+]?([0-9]*\.[0-9]*)([eE].*)?", out) and not NUMERAL.fullmatch(out):
            return "x" + out  # an expression, or open
        if NUMERAL.fullmatch(out):
            value = numeral(out)
            if abs(value) == float("inf") or isinstance(value, int) and not -(2**63) <= value < 2**63:
                return "x" + out
        self.ctx.state(f"{kind}:{classify(out)}")
        return out

    def key(self):
        ch = self.ch
        if ch.chance(50):
            return ch.pick(["a", "b", "cfg", "x-y", "a.b/c", "A_1"])
        k = self.string()
        return k if not k.startswith("x-koreo") else "k"

    def scalar(self):
        ch = self.ch
        kind = ch.weighted([("str", 7), ("int", 2), ("float", 2), ("bool", 1), ("null", 1)])
        if kind == "str":
            return self.string()
        if kind == "int":
            return ch.pick(INTS)
        if kind == "float":
            return ch.pick(FLOATS)
        return ch.bool() if kind == "bool" else None

    def value(self, depth=3):
        ch = self.ch
        kind = ch.weighted([("scalar", 4), ("dict", 2 if depth else 0), ("list", 2 if depth else 0), ("empty", 1)])
        if kind == "dict":
            return self.dict(depth - 1)
        if kind == "list":
            return [self.value(depth - 1) for _ in range(ch.int(1, 4))]
        if kind == "empty":
            return ch.pick([{}, []])
        return self.scalar()

    def dict(self, depth=2):
        return {self.key(): self.value(depth) for _ in range(self.ch.int(1, 4))}


def classify(s):
    out = []
    for name, test in (
        ("dq", '"' in s), ("bs", "\\" in s), ("nl", "\n" in s), ("cr", "\r" in s), ("ctl", any(ord(c) < 32 for c in s)),
        ("uni", any(ord(c) > 127 for c in s)), ("num", bool(NUMERAL.fullmatch(s))), ("edq", s.endswith('"')),
        ("ebs", s.endswith("\\")), ("empty", not s),
    ):  # fmt: skip
        if test:
            out.append(name)
    return "+".join(out)


def numeral(s):
    return int(s) if re.fullmatch(r"-?[0-9]+", s, re.ASCII) else float(s)


def delivered(v):
    """What the documentation says arrives."""
    if isinstance(v, str) and NUMERAL.fullmatch(v):
        return numeral(v)
    if isinstance(v, dict):
        return {k: delivered(x) for k, x in v.items()}
    if isinstance(v, list):
        return [delivered(x) for x in v]
    return v


def difference(want, got, path=""):
    if isinstance(want, dict) and isinstance(got, dict):
        if want.keys() != got.keys():
            return f"{path}: keys {sorted(want)!r} became {sorted(got)!r}"
        for k in want:
            if d := difference(want[k], got[k], f"{path}/{k}"):
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return f"{path}: {len(want)} items became {len(got)}"
        for i, (a, b) in enumerate(zip(want, got)):
            if d := difference(a, b, f"{path}[{i}]"):
                return d
        return None
    if E.same(want, got):
        return None
    return f"{path}: {want!r} became {got!r}"


def check(place, want, got, spec):
    if d := difference(delivered(want), got):
        raise Violation("changed", f"{place}{d}\nspec {json.dumps(spec)}")


def scenario(ctx: Ctx):
    ch = ctx.stream("gen")
    lits = Lits(ctx, ch)
    ctx.nontrivial = True
    kind = ch.weighted([("vf", 3), ("rf", 4), ("wf", 3), ("test", 1)])
    main = {"vf": value_function, "rf": resource_function, "wf": workflow, "test": function_test}[kind]
    return ctx.run(lambda: main(ctx, ch, lits))


async def prepare(ctx, kind, name, spec, broken=False):
    from koreo.cache import prepare_and_cache
    from koreo.function_test.prepare import prepare_function_test
    from koreo.function_test.structure import FunctionTest
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.structure import ResourceFunction
    from koreo.resource_template.prepare import prepare_resource_template
    from koreo.resource_template.structure import ResourceTemplate
    from koreo.value_function.prepare import prepare_value_function
    from koreo.value_function.structure import ValueFunction
    from koreo.workflow.prepare import prepare_workflow
    from koreo.workflow.structure import Workflow

    cls, preparer = {
        "ValueFunction": (ValueFunction, prepare_value_function),
        "ResourceFunction": (ResourceFunction, prepare_resource_function),
        "ResourceTemplate": (ResourceTemplate, prepare_resource_template),
        "Workflow": (Workflow, prepare_workflow),
        "FunctionTest": (FunctionTest, prepare_function_test),
    }[kind]
    ctx.log(f"define {kind} {name} {json.dumps(spec)}")
    out = await prepare_and_cache(
        resource_class=cls, preparer=preparer,
        metadata={"name": name, "resourceVersion": "1"}, spec=copy.deepcopy(spec),
    )  # fmt: skip
    if type(out).__name__ in ("PermFail", "Retry") and not broken:
        raise Violation("not-prepared", f"{out}\nspec {json.dumps(spec)}")
    return out


async def value_function(ctx, ch, lits):
    from koreo.value_function.reconcile import reconcile_value_function

    ret, local = lits.dict(3), lits.value()
    spec = {"return": {**ret, "L": "=locals.l", "n": {"inner": "=locals.l"}}, "locals": {"l": local}}
    function = await prepare(ctx, "ValueFunction", "vf", spec)
    base = ch.chance(30)
    for _ in range(2):
        out = await reconcile_value_function(
            location="x", function=function, inputs=E.to_cel({}),
            value_base=E.to_cel({"zz-kept": {"a": 1}}) if base else None,
        )  # fmt: skip
        cls, value, _, message = outcome_of(out)
        if cls != "ok":
            raise Violation("not-evaluated", f"{cls} {message} spec {json.dumps(spec)}")
        want = {**ret, "L": local, "n": {"inner": local}}
        if base:
            want["zz-kept"] = {"a": 1}
        check("return", want, value, spec)


VERSION = "sim.koreo.dev/v1"


async def resource_function(ctx, ch, lits):
    from koreo.resource_function.reconcile import reconcile_resource_function

    cluster = Cluster(ctx)
    cluster.define(VERSION, "Widget", "widgets")
    base = {"spec": lits.dict(3)}
    if ch.chance(30):
        base[lits.key() + "k"] = lits.value()
    if ch.chance(30):
        base["metadata"] = {"labels": {"a": "b"}, "annotations": {lits.key(): lits.string()}}
    local = lits.value(2)
    spec = {
        "apiConfig": {
            "apiVersion": VERSION, "kind": "Widget", "plural": "widgets", "name": "obj", "namespace": "ns-a",
            "owned": False,
        },
        "locals": {"l": local},
        "return": {"ret": lits.value(2), "live": "=resource"},
    }  # fmt: skip
    want = copy.deepcopy(base)
    as_template = ch.chance(30)
    if as_template:  # a template is data, not expressions: no numerals there
        base = wordy(base)
        want = copy.deepcopy(base)
    if as_template:
        spec["resourceTemplateRef"] = {"name": "tmpl"}
        await prepare(
            ctx, "ResourceTemplate", "tmpl",
            {"template": {"apiVersion": VERSION, "kind": "Widget", **base}},
        )  # fmt: skip
    else:
        spec["resource"] = {**base, "fromLocal": "=locals.l"}
        want["fromLocal"] = local
    overlays = []
    if ch.chance(50):
        lit = lits.value()
        overlays.append({"overlay": {"over": {"inline": lit, "local": "=locals.l"}}})
        want["over"] = {"inline": lit, "local": local}
    if ch.chance(40):
        lit, given = lits.value(), lits.value()
        await prepare(
            ctx, "ValueFunction", "ov",
            {"locals": {"q": lit}, "return": {"ref": {"lit": lit, "local": "=locals.q", "given": "=inputs.g"}}},
        )  # fmt: skip
        overlays.append({"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"g": given}})
        want["ref"] = {"lit": lit, "local": lit, "given": given}
    if overlays:
        spec["overlays"] = overlays
    create = copy.deepcopy(want)
    if ch.chance(30):
        lit = lits.value()
        spec["create"] = {"overlay": {"made": {"lit": lit}}}
        create["made"] = {"lit": lit}
    function = await prepare(ctx, "ResourceFunction", "rf", spec)
    net = ctx.stream("net")

    def policy(call):
        p = Plan(turns=net.below(2))
        if net.chance(10):
            p.fault, p.applied = net.pick(["http500", "timeout", "reset"]), net.bool()
        return p

    api = SimApi(ctx, cluster, policy)
    key = (VERSION, "widgets", "ns-a", "obj")

    async def one():
        first = len(api.calls)
        try:
            result = await reconcile_resource_function(
                api=api, location="x", function=function, owner=copy.deepcopy(OWNER), inputs=E.to_cel({})
            )
        except Exception as err:
            if not any(c.fault for c in api.calls[first:]):
                raise
            ctx.log(f"  raised {err!r}")
            return None, None, api.calls[first:]
        cls, value, _, message = outcome_of(result.outcome)
        ctx.log(f"  {cls} {message}")
        calls = api.calls[first:]
        if cls == "permfail" and not any(c.fault for c in calls):
            raise Violation("not-evaluated", f"{message} spec {json.dumps(spec)}")
        for call in calls:
            if call.method == "POST":
                payload(call, create, "POST")
            if call.method == "PATCH":
                payload(call, want, "PATCH")
        return cls, value, calls

    def payload(call, want, method):
        body = copy.deepcopy(call.body)
        notes = body.get("metadata", {}).get("annotations") or {}
        notes.pop(LAST_APPLIED, None)
        full = copy.deepcopy(want)
        full["apiVersion"], full["kind"] = VERSION, "Widget"
        meta = full.setdefault("metadata", {})
        meta["name"], meta["namespace"] = "obj", "ns-a"
        meta.setdefault("annotations", {})
        body["metadata"].setdefault("annotations", {})
        body["metadata"].pop("ownerReferences", None)
        check(method, full, body, spec)

    awkward = has_null(want) or has_null(create)
    for _ in range(ch.int(2, 4)):
        cls, value, calls = await one()
    # undisturbed from here
    api.policy = None
    for _ in range(3):
        cls, value, calls = await one()
    if not awkward and any(c.mutating for c in calls):
        raise Violation("not-settled", f"{calls} {calls[-1].body} stored {cluster.objects.get(key)} spec {json.dumps(spec)}")
    if cls == "ok":
        check("return", {"ret": spec["return"]["ret"]}, {"ret": value["ret"]}, spec)
        live = cluster.objects[key]
        for part in want:
            if part != "metadata" and not awkward:
                check(f"live {part}", want[part], value["live"].get(part), spec)
                check(f"stored {part}", want[part], live.get(part), spec)
    # one literal drifts, the correction carries it again
    if key in cluster.objects and not awkward:
        obj = copy.deepcopy(cluster.objects[key])
        obj["spec"][sorted(obj["spec"])[0]] = {"drifted": [1, 2, 3]}
        cluster.put(key, obj)
        ctx.fault("drift")
        cls, value, calls = await one()
        if cls != "ok" and not any(c.method == "PATCH" for c in calls):
            raise Violation("not-corrected", f"{calls} {json.dumps(spec)}")


async def workflow(ctx, ch, lits):
    given, state, nested = lits.value(), lits.value(), lits.dict(2)
    await prepare(ctx, "ValueFunction", "echo", {"return": {"x": "=inputs.x", "all": "=inputs"}})
    steps = [
        {
            "label": "one", "ref": {"kind": "ValueFunction", "name": "echo"},
            "inputs": {"x": given, **({"more": nested})},
            "state": {"lit": state, "x": "=value.x", "deep": {"v": lits_list(given)}, "all": "=value.all"},
        },
        {
            "label": "two", "ref": {"kind": "ValueFunction", "name": "echo"},
            "inputs": {"x": ["=steps.one.x", state], "same": nested},
            "state": {"two": "=value"},
        },
    ]  # fmt: skip
    expected = {
        "lit": state, "x": given, "deep": {"v": lits_list(given)}, "all": {"x": given, "more": nested},
        "two": {"x": [given, state], "all": {"x": [given, state], "same": nested}},
    }  # fmt: skip
    if ch.chance(40):
        items = [lits.value(1) for _ in range(ch.int(1, 3))]
        steps.append({
            "label": "three", "ref": {"kind": "ValueFunction", "name": "echo"},
            "forEach": {"itemIn": "=steps.one.all.more.forall" if False else "=parent.items", "inputKey": "x"},
            "inputs": {"fix": state},
            "state": {"three": "=value"},
        })  # fmt: skip
        expected["three"] = [{"x": None, "all": {"x": None, "fix": state}} for _ in range(2)]
    spec = {"steps": steps}
    prepared = await prepare(ctx, "Workflow", "wf", spec)
    api = SimApi(ctx, Cluster(ctx))
    seen = await run_pass(ctx, prepared, {"items": [None, None]}, api)
    if seen.cls != "ok" or seen.state_errors:
        raise Violation("not-evaluated", f"{seen.cls} {seen.message} {seen.state_errors} spec {json.dumps(spec)}")
    check("state", expected, seen.state, spec)
    if ch.chance(50):
        again = await run_pass(ctx, prepared, {"items": [None, None]}, api)
        check("state", expected, again.state, spec)


def lits_list(v):
    return [v, {"again": v}]


async def function_test(ctx, ch, lits):
    from koreo.function_test.run import run_function_test

    # FunctionTest documents are data, not expressions: no numerals there
    ret, given = lits.value(), wordy(lits.value())
    await prepare(
        ctx, "ValueFunction", "vf",
        {"locals": {"l": ret}, "return": {"a": ret, "l": "=locals.l", "g": "=inputs.g"}},
    )  # fmt: skip
    spec = {
        "functionRef": {"kind": "ValueFunction", "name": "vf"},
        "inputs": {"g": given},
        "testCases": [{"label": "t1", "expectReturn": {"a": delivered(ret), "l": delivered(ret), "g": given}}],
    }
    prepared = await prepare(ctx, "FunctionTest", "t", spec)
    result = await run_function_test(location="t", function_test=prepared)
    for case in result.test_results or [None]:
        if case is None or not case.test_pass:
            raise Violation("test-differs", f"{result} spec {json.dumps(spec)}")


def wordy(v):
    if isinstance(v, str):
        return "x" + v if NUMERAL.fullmatch(v) else v
    if isinstance(v, dict):
        return {k: wordy(x) for k, x in v.items()}
    return [wordy(x) for x in v] if isinstance(v, list) else v
