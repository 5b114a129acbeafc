"""FunctionTests of generated Functions.

What the Function does in a situation (inputs, current resource) is found out
by running the real reconcile code against a recording API server; what a
FunctionTest then has to say follows from a small model of its documentation.
"""

from __future__ import annotations

import copy
import json
import re

from . import boot, expr as E
from .cluster import Plan, SimApi
from .core import Ctx, Discard, HarnessError, Violation
from .rfsim import (
    merge_specs,
    AS_LAST, AS_MAP, AS_SET, DIRECTIVES, LAST_APPLIED, MISSING, Definition, Options, RfWorld,
    at, atom, both, loose, merge, put_at, walk,
)  # fmt: skip
from .world import Pred, RECORD, TYPES, outcome_of, record_env

LOCATION = "ftloc"

# A FunctionTest makes up plurals (kind + "s", or the kind if it has to be
# looked up); where they differ from the real ones see c18.FINDINGS.
KINDS = [
    ("sim.koreo.dev/v1", "Widget", "widgets", True, True),
    ("sim.koreo.dev/v1", "Globe", "globes", False, True),
    ("v1", "ConfigMap", "configmaps", True, True),
    ("other.koreo.dev/v2beta1", "Widget", "widgets", True, True),
    ("v1", "Series", "series", True, False),
]


# --------------------------------------------------------------------------
# functions under test
# --------------------------------------------------------------------------


class ValueDefinition:
    """A ValueFunction."""

    kind = "ValueFunction"
    plural = None

    def __init__(self, world, ch):
        env = record_env("inputs")
        self.preds = []
        if ch.chance(45):
            for i in range(ch.int(1, 2)):
                node = E.Gen(ch, env).gen("bool", 2)
                kind = ch.pick(["skip", "depSkip", "retry", "permFail", "ok"])
                self.preds.append(Pred(node, kind, ch.int(1, 90), ch.pick(MESSAGES)))
        self.locals = {"seen": E.X(("probe", "in", ("var", "inputs")))}
        self.locals["q"] = E.X(E.Gen(ch, env).gen("int", 2))
        env = [*env, ("int", "locals", ("q",))]
        self.ret = None
        if ch.chance(92) or not self.preds:
            self.ret = {"id": E.X(("path", "inputs", (("id", 0),))), **rich(ch, env, 2)}
            if ch.chance(10):
                self.ret["oops"] = E.X(E.Gen(ch, env).fail("int"))

    def spec(self):
        spec = {"locals": E.render(self.locals)}
        if self.preds:
            spec["preconditions"] = [p.spec() for p in self.preds]
        if self.ret is not None:
            spec["return"] = E.render(self.ret)
        return spec


MESSAGES = ["not Ready yet", "A", "waiting for: x/y (1 of 2)", "42", "true", "it's broken", "a = b", "Ünicode Straße", "a.b*c", "line one\nline two"]


def rich(ch, env, depth):
    """Values of every kind."""
    out = {}
    for key in ch.shuffle(["n", "s", "b", "l", "deep", "objs", "x.y/z", "nothing", "mix", "empty"])[: ch.int(1, 5)]:
        if key in TYPES:
            out[key] = E.X(E.Gen(ch, env).gen(TYPES[key], 2))
        elif key == "deep":
            out[key] = rich(ch, env, depth - 1) if depth else {"leaf": ch.pick([1, "1", True])}
        elif key == "objs":
            out[key] = [
                {"name": f"m{i}", "v": ch.pick([0, 1, False, "x", None])} for i in range(ch.int(0, 3))
            ]
        elif key == "nothing":
            out[key] = None
        elif key == "mix":
            out[key] = ch.shuffle([1, True, "1", 0, False, "", None, 2.5, "true", [1], {"k": 0}])[: ch.int(1, 5)]
        elif key == "empty":
            out[key] = ch.pick([{}, [], "", 0, False])
        else:
            out[key] = ch.pick([1, 0, True, False, "1", "word", 1.5, -7])
    return out


def opts_for(ch):
    o = Options(
        kinds=KINDS, attack=0, fail=2, null=4, directives=ch.pick([0, 40]), pre=35, post=45, readonly=8,
        delete_if_exists=10, no_create=12, create_contradicts=20, owned=50,
        update=(("patch", 6), ("recreate", 4), ("never", 2)),
    )  # fmt: skip
    return o


class Subject(RfWorld):
    """The function under test and everything it uses."""

    def __init__(self, ctx: Ctx):
        ch = ctx.stream("gen")
        super().__init__(ctx, opts_for(ch))
        self.is_rf = ch.chance(72)
        self.value = None

    def mutate(self, d: Definition):
        ch = self.ch
        d.locals["seen"] = E.X(("probe", "in", ("var", "inputs")))
        for p in (*d.preds, *d.posts):
            p.marker = ch.pick(MESSAGES)
        if not d.delete_if_exists and ch.chance(50):
            d.ret = {**d.ret, **rich(ch, record_env("inputs"), 1)}
        if isinstance(d.target, dict):
            self.tidy(d.target)
        for doc in (d.templates if d.template else {}).values():
            self.tidy(doc)
        for entry in d.overlays:
            if entry["inline"] is not None:
                self.tidy(entry["inline"])
            if entry["vf"]:
                self.tidy(entry["vf"]["ret"])

    def tidy(self, doc):
        """What an assertion about it means is not clear."""
        meta = doc.get("metadata")
        if isinstance(meta, dict):
            notes = meta.get("annotations")
            if isinstance(notes, dict):
                notes.pop(LAST_APPLIED, None)
                if not notes:
                    del meta["annotations"]
            meta.pop("ownerReferences", None)

    async def define(self):
        if self.is_rf:
            await super().define()
            return
        from koreo.cache import prepare_and_cache
        from koreo.value_function.prepare import prepare_value_function
        from koreo.value_function.structure import ValueFunction

        self.value = ValueDefinition(self, self.ch)
        spec = self.value.spec()
        self.ctx.log(f"define ValueFunction vf {json.dumps(spec, sort_keys=True)}")
        self.function = await prepare_and_cache(
            resource_class=ValueFunction, preparer=prepare_value_function,
            metadata={"name": "vf", "resourceVersion": "1"}, spec=copy.deepcopy(spec),
        )  # fmt: skip
        if type(self.function).__name__ in ("PermFail", "Retry"):
            raise Violation("refused", f"{self.function}: {json.dumps(spec)}")
        self.needed = [(ValueFunction, prepare_value_function, "vf", spec)]

    async def offer(self, version, last_only=False):
        """The same definitions once more."""
        from koreo.cache import prepare_and_cache

        for cls, preparer, name, spec in self.needed[-1:] if last_only else self.needed:
            self.function = await prepare_and_cache(
                resource_class=cls, preparer=preparer,
                metadata={"name": name, "resourceVersion": version}, spec=copy.deepcopy(spec),
            )  # fmt: skip

    @property
    def ref(self):
        if self.is_rf:
            return {"kind": "ResourceFunction", "name": "rf"}
        return {"kind": "ValueFunction", "name": "vf"}

    # -- situations ----------------------------------------------------------

    def some_inputs(self, ch, partial=False):
        out = {
            "n": ch.int(0, 5), "s": ch.pick(E.WORDS), "b": ch.bool(),
            "l": [ch.int(0, 3) for _ in range(ch.int(0, 3))], "id": ch.pick(["obj", "obj", "obj-2"]), "ns": "ns-a",
            "more": {"k": ch.int(0, 3), "list": [{"x": ch.int(0, 2)}], ch.pick(["p", "q"]): {"r": ch.pick(["1", 1, True, None])}},
        }  # fmt: skip
        if partial:
            out = {k: out[k] for k in ch.subset(sorted(out), 35) or ["n"]}
        return out

    async def some_resource(self, ch, inputs):
        """A current resource: absent, as wanted, drifted, decorated."""
        kind = ch.weighted([("absent", 3), ("wanted", 4), ("drifted", 4), ("other", 1)])
        if kind == "absent":
            return None
        if not self.is_rf:
            return {"apiVersion": "v1", "kind": "ConfigMap", "metadata": {"name": "base"}, "data": {"k": ch.int(0, 2)},
                    **({"deep": {"was": "there"}, "n": -1} if ch.bool() else {})}
        base = {
            "apiVersion": self.definition.version, "kind": self.definition.kindname,
            "metadata": {"name": "obj", **({"namespace": "ns-a"} if self.definition.namespaced else {})},
            "spec": {k: v for k, v in self.some_inputs(ch).items() if k in RECORD},
        }  # fmt: skip
        if kind == "other":
            if ch.bool():
                base["status"] = {"phase": "Old"}
            return base
        made = await self.truth(inputs, None)
        if made.method != "POST":
            return base
        out = copy.deepcopy(made.sent)
        if not isinstance(out.get("metadata"), dict):
            return base
        if kind == "drifted":
            places = [p for p in walk(out) if p and p[0] not in ("apiVersion", "kind", "metadata")]
            if places:
                put_at(out, ch.pick(places), ch.pick([None, 0, True, "drift", [], {"z": 1}, MISSING]))
        if ch.chance(20):
            out["status"] = {"phase": ch.pick(["Ready", "Old"])}
        return out

    # -- what the function does --------------------------------------------

    async def truth(self, inputs, resource, idx=0, api=None):
        from koreo.resource_function.reconcile import reconcile_resource_function
        from koreo.value_function.reconcile import reconcile_value_function

        seen = []
        hook = boot.current_probe()
        boot.set_probe(lambda label, value: seen.append((label, E.to_py(value))))
        mirror = Mirror(self.cluster, resource)
        api = MirrorApi(self.ctx, mirror, lambda call: Plan())
        location = f"{LOCATION}.testCases[{idx}]"
        try:
            if self.is_rf:
                out = (await reconcile_resource_function(
                    api=api, location=location, function=self.function,
                    owner=("somewhere-else", E.to_cel({"uid": "unit-test-123"})),
                    inputs=E.to_cel(copy.deepcopy(inputs)),
                )).outcome  # fmt: skip
            else:
                out = await reconcile_value_function(
                    location=location, function=self.function, inputs=E.to_cel(copy.deepcopy(inputs)),
                    value_base=E.to_cel(copy.deepcopy(resource or {})),
                )  # fmt: skip
        finally:
            boot.set_probe(hook)
        return Truth(out, api, seen, resource)


class Mirror:
    """An API server with one object, whatever is asked for."""

    def __init__(self, cluster, resource):
        self.kinds = cluster.kinds
        self.resource = copy.deepcopy(resource)

    def apply(self, call):
        if call.method == "GET":
            return 200, {"kind": "List", "metadata": {}, "items": [self.resource] if self.resource else []}
        if call.method == "DELETE":
            return 200, {"kind": "Status", "status": "Success"}
        return 200, copy.deepcopy(call.body)


class MirrorApi(SimApi):
    """The object there is, whatever name is asked for."""

    async def async_get(self, kind, *names, namespace=None, **kwargs):
        async with self.async_get_kind(kind, namespace=namespace) as (cls, response):
            for item in response.json()["items"]:
                yield cls(item, api=self)


class Truth:
    """What happened."""

    def __init__(self, out, api, seen, resource):
        self.cls, self.value, self.delay, self.message = outcome_of(out)
        self.calls = [(c.method, c.version, c.plural, c.namespace, c.name, c.body) for c in api.calls]
        self.seen = seen
        mutations = [c for c in api.calls if c.mutating]
        if len(mutations) > 1:
            raise Violation("two-mutations", f"{mutations}")
        self.method = mutations[0].method if mutations else None
        self.sent = copy.deepcopy(mutations[0].body) if self.method in ("POST", "PATCH") else None
        self.deleted = self.method == "DELETE"
        # what the next test case starts from
        if self.sent is not None:
            self.after = {**(resource or {}), **self.sent}
        elif self.deleted:
            self.after = {}
        else:
            self.after = resource

    def summary(self):
        return f"{self.cls} {self.delay} {self.message!r} {self.method} {json.dumps(self.sent)} {json.dumps(self.value)}"

    @property
    def same_readings(self):
        """Is the object sent all there is?"""
        return self.sent is not None and self.after == self.sent


def visible(sent):
    """An object without koreo's own annotation."""
    out = copy.deepcopy(sent)
    meta = out.get("metadata")
    notes = meta.get("annotations") if isinstance(meta, dict) else None
    if isinstance(notes, dict):
        notes.pop(LAST_APPLIED, None)
        if not notes:
            del meta["annotations"]
    return out


# --------------------------------------------------------------------------
# the verdict
# --------------------------------------------------------------------------


def exact(want, got, path=()):
    """Are they equal, modulo comparison directives?  None: not documented."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return False
        as_set, as_map = want.get(AS_SET) or (), want.get(AS_MAP) or {}
        wkeys = [k for k in want if k not in DIRECTIVES]
        gkeys = [k for k in got if k not in DIRECTIVES]
        if set(wkeys) != set(gkeys):
            return False
        results = []
        for key in wkeys:
            a, b = want[key], got[key]
            if key in as_map:
                if key in as_set:
                    results.append(None)
                else:
                    results.append(exact_map(a, b, as_map[key]) if isinstance(a, list) and isinstance(b, list) else exact(a, b))
            elif key in as_set and isinstance(a, list) and isinstance(b, list):
                results.append(exact_set(a, b))
            else:
                results.append(exact(a, b))
        return both(results)
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            return False
        return both(exact(a, b) for a, b in zip(want, got))
    if isinstance(got, (dict, list)):
        return False
    if isinstance(want, bool) or isinstance(got, bool) or want is None or got is None:
        return type(want) is type(got) and want == got
    if isinstance(want, (int, float)) and isinstance(got, (int, float)):
        if want != got:
            return False
        return True if type(want) is type(got) else None
    return type(want) is type(got) and want == got


def exact_set(want, got):
    scalar = lambda v: v is None or isinstance(v, (bool, int, float, str))
    if not all(map(scalar, want)) or not all(map(scalar, got)):
        return None if len(want) == len(got) else False if set(map(json.dumps, want)) != set(map(json.dumps, got)) else None
    a, b = [atom(v) for v in want], [atom(v) for v in got]
    if set(a) != set(b):
        # true and 1: c19.FINDINGS
        return None if set(want) == set(got) else False
    if sorted(a) != sorted(b):
        return None
    if sorted(map(json.dumps, want)) != sorted(map(json.dumps, got)):
        return None  # 1 and 1.0
    return True


def exact_map(want, got, fields):
    """Only unlike keys are judged, see c19.FINDINGS."""

    def key(item):
        if not isinstance(item, dict) or not fields:
            return None
        if not all(isinstance(item.get(f), (str, int, float, bool)) for f in fields):
            return None
        return tuple(atom(item[f]) for f in fields)

    wkeys, gkeys = [key(w) for w in want], [key(g) for g in got]
    if None in gkeys or None in wkeys:
        return None
    if len({loose(k) for k in gkeys}) != len(gkeys) or len({loose(k) for k in wkeys}) != len(wkeys):
        return None
    if set(wkeys) != set(gkeys):
        return False
    by = dict(zip(gkeys, got))
    return both(exact(w, by[k]) for k, w in zip(wkeys, want))


def unlike_maps(want, got):
    """Does a map directive meet something that is not a list of maps?"""
    if isinstance(want, dict) and isinstance(got, dict):
        as_map = want.get(AS_MAP) or {}
        for key in want:
            if key in DIRECTIVES or key not in got:
                continue
            a, b = want[key], got[key]
            if key in as_map:
                if not all(isinstance(v, list) and all(isinstance(i, dict) for i in v) for v in (a, b)):
                    return True
                if any(unlike_maps(i, j) for i in a for j in b):
                    return True
            elif unlike_maps(a, b):
                return True
    elif isinstance(want, list) and isinstance(got, list):
        return any(unlike_maps(a, b) for a, b in zip(want, got))
    return False


def treacherous(assertion: dict, truth: Truth):
    """Would judging it crash?  See c19.FINDINGS."""
    ((kind, what),) = assertion.items()
    if kind == "expectReturn":
        return unlike_maps(what, truth.value)
    if kind == "expectResource" and truth.sent is not None:
        return unlike_maps(what, visible(truth.sent)) or unlike_maps(what, visible(truth.after))
    return False


def contained(needle, message):
    if not needle:
        return True
    return needle.lower() in (message or "").lower()


def verdict(assertion: dict, truth: Truth):
    """Does it hold?  None: not documented."""
    ((kind, what),) = assertion.items()
    if kind == "expectDelete":
        return truth.deleted == what
    if kind == "expectReturn":
        if truth.cls != "ok":
            return False
        return exact(what, truth.value)
    if kind == "expectResource":
        if truth.deleted and set(what) <= set(DIRECTIVES):
            return None  # c19.FINDINGS
        if truth.sent is None:
            return False
        if truth.cls != "retry":
            return None
        readings = [exact(what, visible(truth.sent)), exact(what, visible(truth.after))]
        return readings[0] if readings[0] is readings[1] else None
    ((cls, body),) = what.items()
    if cls.lower() != truth.cls:
        return False
    if cls == "ok":
        return True
    if not contained(body["message"], truth.message):
        return False
    if cls == "retry" and body["delay"] and body["delay"] != truth.delay:
        return False
    return True


# --------------------------------------------------------------------------
# assertions
# --------------------------------------------------------------------------

OUTCOMES = ("ok", "skip", "depSkip", "retry", "permFail")


def piece(ch, message):
    """Part of a message, leaving out where it happened."""
    message = message or ""
    parts = [p for p in re.split(r"ftloc\.testCases\[\d+\]|testCases\[\d+\]", message) if p]
    text = ch.pick(parts) if parts else ""
    k = ch.below(5)
    if k == 0 or not text:
        return ""
    if k >= 2:
        a = ch.below(len(text))
        text = text[a : a + ch.int(1, 30)]
    if ch.chance(40) and text.isascii():
        text = text.swapcase() if ch.bool() else text.upper()
    return text


def outcome(ch, cls, message="", delay=0):
    if cls == "ok":
        return {"expectOutcome": {"ok": {}}}
    body = {"message": message}
    if cls == "retry":
        body["delay"] = delay
    return {"expectOutcome": {cls: body}}


def derived(ch, truth: Truth, is_rf=True):
    """An assertion which describes what happened."""
    options = ["outcome", "outcome", *(["delete"] if is_rf else [])]
    if truth.cls == "ok" and isinstance(truth.value, dict) and truth.value:
        options += ["return"] * 4
    if truth.same_readings and truth.cls == "retry":
        options += ["resource"] * 5
    kind = ch.pick(options)
    if kind == "delete":
        return {"expectDelete": truth.deleted}
    if kind == "return":
        return {"expectReturn": copy.deepcopy(truth.value)}
    if kind == "resource":
        out = visible(truth.sent)
        if ch.bool():
            direct(ch, out)
        return {"expectResource": out}
    cls = {c.lower(): c for c in OUTCOMES}[truth.cls]
    return outcome(ch, cls, piece(ch, truth.message), ch.pick([0, truth.delay or 0]))


def direct(ch, doc):
    """Put comparison directives where they fit, and use them."""
    for path in list(walk(doc)):
        spot = at(doc, path)
        if not isinstance(spot, dict) or path[:1] == ("metadata",) and ch.chance(50):
            continue
        for key in list(spot):
            value = spot[key]
            if key in DIRECTIVES or not isinstance(value, list) or not ch.chance(60):
                continue
            if all(v is None or isinstance(v, (bool, int, float, str)) for v in value):
                if len(set(map(atom, value))) == len(value):
                    spot.setdefault(AS_SET, []).append(key)
                    spot[key] = ch.shuffle(value)
            elif all(isinstance(v, dict) for v in value):
                fields = [
                    f for f in ("name", "id", "x", "value", "proto")
                    if all(isinstance(v.get(f), (str, int)) for v in value) and len({loose((atom(v[f]),)) for v in value}) == len(value)
                ]  # fmt: skip
                if fields:
                    spot.setdefault(AS_MAP, {})[key] = [ch.pick(fields)]
                    spot[key] = ch.shuffle(value)


def deviate(ch, assertion: dict, truth: Truth):
    """A single deviation from an assertion."""
    ((kind, what),) = copy.deepcopy(assertion).items()
    if kind == "expectDelete":
        return {kind: not what}
    if kind in ("expectReturn", "expectResource"):
        mutated = deviate_document(ch, what)
        return {kind: mutated} if isinstance(mutated, dict) and mutated else None
    ((cls, body),) = what.items()
    k = ch.below(4)
    if k == 0:
        other = ch.pick([c for c in OUTCOMES if c != cls])
        return outcome(ch, other, body.get("message", ""), truth.delay or 0)
    if k == 1 and cls == "retry":
        return outcome(ch, cls, body["message"], ch.pick([(truth.delay or 0) + 1, -5, (truth.delay or 0) * 2 + 1]))
    if cls != "ok":
        message = truth.message or ""
        text = ch.pick([body["message"] + "\u2603", "\u2603", message + "x", "no such thing", " " + message + " ", message[::-1] + "~"])
        return outcome(ch, cls, text, body.get("delay", 0))
    return outcome(ch, ch.pick(OUTCOMES[1:]), "", 0)


RETYPED = [None, "", 0, False, True, 1, "x", [], {}, ["z"], {"z": 1}, 1.5, "true", "null", [None], -1]


def deviate_document(ch, doc):
    doc = copy.deepcopy(doc)
    places = [p for p in walk(doc) if p]
    if not places:
        return {**doc, "extra": 1}
    path = ch.pick(places)
    now = at(doc, path)
    k = ch.below(10)
    if k == 0:  # missing
        put_at(doc, path, MISSING)
    elif k == 1 or (k == 2 and not isinstance(now, (list, dict))):  # extra
        spots = [p for p in [(), *places] if isinstance(at(doc, p), (dict, list))]
        spot = at(doc, ch.pick(spots))
        if isinstance(spot, dict):
            spot[ch.pick(["extra", "zz", "status", "annotations", "0"])] = copy.deepcopy(ch.pick(RETYPED))
        else:
            spot.insert(ch.int(0, len(spot)), copy.deepcopy(ch.pick([*RETYPED, *spot])))
    elif k == 2:  # order, length
        if isinstance(now, list):
            new = ch.pick([now[::-1], now[1:], now[:-1], now + now[:1], ch.shuffle(now)])
            put_at(doc, path, new)
        else:
            put_at(doc, path, {})
    elif k <= 5:  # retyped
        put_at(doc, path, copy.deepcopy(ch.pick(RETYPED)))
    elif isinstance(now, bool):
        put_at(doc, path, ch.pick([not now, int(now), float(now), str(now).lower()]))
    elif isinstance(now, (int, float)):
        put_at(doc, path, ch.pick([now + 1, -now - 1, str(now), bool(now), [now], now + 0.5]))
    elif isinstance(now, str):
        put_at(doc, path, ch.pick([now + " ", now + "x", now[:-1], now.upper() + "Y", "", {now: now}, [now], now.swapcase()]))
    elif now is None:
        put_at(doc, path, ch.pick(["null", "", 0, False, {}, [], "None"]))
    elif isinstance(now, list):
        put_at(doc, path, ch.pick([{}, "x", None, {"0": now}, 1, [now]]))
    else:
        put_at(doc, path, ch.pick([[], [now], "x", None, list(now), sorted(now, key=str), 7]))
    return doc


# --------------------------------------------------------------------------
# running them
# --------------------------------------------------------------------------


def locals_raise(spec, error):
    """Is the function under test one whose locals raise such an error?"""
    import celpy
    from koreo.cache import get_resource_from_cache
    from koreo.resource_function.structure import ResourceFunction

    ref = spec["functionRef"]
    function = get_resource_from_cache(ResourceFunction, ref["name"]) if ref["kind"] == "ResourceFunction" else None
    values = getattr(function, "local_values", None)
    if not isinstance(function, ResourceFunction) or not values:
        return False
    base = spec.get("inputs") or {}
    carried = copy.deepcopy(base)
    for case in spec.get("testCases") or ():
        overrides = case.get("inputOverrides") or {}
        carried = merge_specs(carried, overrides)
        for given in (merge_specs(base, overrides), carried):
            try:
                values.evaluate({"inputs": celpy.json_to_cel(given)})
            except error:
                return True
            except Exception:
                pass
    return False


async def prepare_test(spec, key="the-test"):
    from koreo.function_test.prepare import prepare_function_test

    try:
        out = await prepare_function_test(key, copy.deepcopy(spec))
    except Exception as err:
        if locals_raise(spec, type(err)):
            raise Discard("C20's recorded finding") from None
        raise
    if not isinstance(out, tuple):
        raise Violation("refused", f"{out}: {json.dumps(spec)}")
    return out[0]


class Watched:
    """Probes of one run."""

    def __init__(self):
        self.seen = []


async def run_test(test, spec=None):
    from koreo.function_test.run import run_function_test

    watched = Watched()
    hook = boot.current_probe()
    boot.set_probe(lambda label, value: watched.seen.append((label, E.to_py(value))))
    try:
        result = await run_function_test(location=LOCATION, function_test=test)
    except Exception as err:
        raise Violation("test-crashed", f"{err!r}: {json.dumps(spec)}") from err
    finally:
        boot.set_probe(hook)
    watched.result = result
    return watched


def overlay_inputs(base, overrides):
    """What the inputs of a case are."""
    if base and overrides:
        return E._overlay(base, overrides)
    return base or overrides or {}
