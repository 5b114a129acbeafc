"""Histories of one ResourceFunction against the simulated API server.

A *pass* runs the real `reconcile_resource_function`; between passes other
actors decorate, drift, reorder, adopt, damage and delete the object, inputs and
definitions change, requests fail, hang, race and passes are abandoned.  Every
pass is recorded together with what the reference model says about it; the
property modules judge the records.
"""

from __future__ import annotations

import asyncio
import copy
import json

from . import boot, expr as E
from .cluster import Cluster, ERROR_KINDS, Plan, SimApi, merge_patch
from .core import Ctx, HarnessError, Violation
from .world import Out, Pred, RECORD, Refused, TYPES, eval_preds, outcome_of, record_env

LAST_APPLIED = "koreo.dev/last-applied-configuration"
AS_SET, AS_MAP, AS_LAST = (
    "x-koreo-compare-as-set", "x-koreo-compare-as-map", "x-koreo-compare-last-applied",
)  # fmt: skip
DIRECTIVES = (AS_SET, AS_MAP, AS_LAST)

KINDS = [
    # apiVersion, kind, plural, namespaced, plural given
    ("sim.koreo.dev/v1", "Widget", "widgets", True, True),
    ("sim.koreo.dev/v1", "Globe", "globes", False, True),
    ("sim.koreo.dev/v1", "Mouse", "mice", True, False),
    ("v1", "ConfigMap", "configmaps", True, True),
    ("other.koreo.dev/v2beta1", "Widget", "widgetsets", True, True),
    ("sim2.koreo.dev/v1", "Mouse", "mousepads", True, False),
    ("v1", "Secret", "secrets", True, False),
    ("rbac.sim.dev/v1alpha1", "Policy", "policies", False, False),
]


class Options:
    kinds = KINDS
    readonly = 8
    delete_if_exists = 5
    no_create = 10
    update = (("patch", 6), ("recreate", 2), ("never", 2))
    directives = 60  # percent of targets with comparison directives
    attack = 25  # percent of documents trying to change identity
    null = 6
    pre = 12
    post = 20
    overlays = 50
    create_overlay = 25
    create_contradicts = 15
    template = 30
    fail = 4
    api_fault = 20  # percent of passes
    cancel = 6
    twin = 10
    bystander = 0  # percent of steps in which a namesake of another API group is reconciled
    owned = 70
    actions = (
        ("drift", 5), ("decorate", 4), ("reorder", 4), ("owners", 3), ("damage", 2),
        ("delete", 2), ("inputs", 3), ("redefine", 2), ("nothing", 3),
    )  # fmt: skip
    steps = (3, 9)

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise HarnessError(k)
            setattr(self, k, v)


# --------------------------------------------------------------------------
# reference: merging and matching
# --------------------------------------------------------------------------


def merge(base, overlay):
    """Maps merge key by key; every other value (also {}) replaces."""
    out = dict(base)
    for key, value in overlay.items():
        if isinstance(value, dict) and value:
            below = out.get(key)
            out[key] = merge(below if isinstance(below, dict) else {}, value)
        else:
            out[key] = copy.deepcopy(value)
    return out


def strip(value):
    if isinstance(value, dict):
        return {k: strip(v) for k, v in value.items() if k not in DIRECTIVES}
    if isinstance(value, list):
        return [strip(v) for v in value]
    return value


def both(results):
    """True, False or None (the documentation leaves it open)."""
    results = list(results)
    if any(r is False for r in results):
        return False
    return None if any(r is None for r in results) else True


class _Missing:
    """No value; survives copying."""

    def __repr__(self):
        return "missing"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


MISSING = _Missing()


def has_null(value):
    if isinstance(value, dict):
        return any(map(has_null, value.values()))
    if isinstance(value, list):
        return any(map(has_null, value))
    return value is None


def meets(target, live, last=None, path=()):
    """Does `live` contain every field of `target` with an equal value?"""
    if isinstance(target, dict):
        if not isinstance(live, dict):
            return False
        as_set = target.get(AS_SET) or ()
        as_map = target.get(AS_MAP) or {}
        as_last = target.get(AS_LAST) or ()
        results = []
        for key, value in target.items():
            if key in DIRECTIVES:
                continue
            here = (*path, key)
            if here == ("metadata", "ownerReferences"):
                continue
            if here == ("metadata", "annotations", LAST_APPLIED):
                continue  # koreo's own
            below = last.get(key) if isinstance(last, dict) else None
            now = live.get(key, MISSING)
            verdict = field(value, now, below, here, key in as_set, as_map.get(key))
            if key in as_last:
                applied = field(
                    value, MISSING if below is None else below, None, here,
                    key in as_set, as_map.get(key),
                )  # fmt: skip
                verdict = verdict if verdict is applied else None
            if key == "ownerReferences" and not verdict:
                verdict = None  # deliberately not compared, wherever it is
            results.append(verdict)
        return both(results)
    if isinstance(target, list):
        if not isinstance(live, list) or len(live) != len(target):
            return False
        lasts = last if isinstance(last, list) else []
        return both(
            meets(t, v, lasts[i] if i < len(lasts) else None, (*path, i))
            for i, (t, v) in enumerate(zip(target, live))
        )
    if isinstance(live, (dict, list)):
        return False
    return E.same(target, live)


def field(target, live, last, path, as_set, map_fields):
    if live is MISSING:
        # a merge patch removes nulls: whether that is "met" is out of scope
        return None if target is None else False
    if as_set and isinstance(target, list) and isinstance(live, list):
        return sets_equal(target, live)
    if map_fields and isinstance(target, list) and isinstance(live, list):
        return maps_equal(target, live, last, path, map_fields)
    return meets(target, live, last, path)


def atom(v):
    return json.dumps(float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v)


def sets_equal(target, live):
    scalar = lambda v: isinstance(v, (bool, int, float, str))
    if not all(map(scalar, target)):
        return None
    if not all(map(scalar, live)):
        return False
    a, b = [atom(v) for v in target], [atom(v) for v in live]
    return set(a) == set(b)  # whatever is repeated


def maps_equal(target, live, last, path, fields):
    def key(item):
        if not isinstance(item, dict):
            return None
        if not all(isinstance(item.get(f), (str, int, bool, float)) for f in fields):
            return None
        return tuple(atom(item[f]) for f in fields)

    tkeys = [key(t) for t in target]
    if None in tkeys or len(set(tkeys)) != len(tkeys):
        return None
    if len({loose(k) for k in tkeys}) != len(tkeys):
        return None
    if any(not isinstance(v, dict) for v in live):
        return None if target == [] else False
    lkeys = [key(v) for v in live]
    by_key = {}
    for k, v in zip(lkeys, live):
        if k is not None:
            by_key.setdefault(k, []).append(v)
    results = []
    lasts = {}
    if isinstance(last, list):
        lasts = {key(v): v for v in last}
    for k, t in zip(tkeys, target):
        found = by_key.get(k, [])
        if not found:
            results.append(False)
        else:
            each = [meets(t, v, lasts.get(k), (*path, str(k))) for v in found]
            if len(found) > 1:
                # which of the duplicates counts is not documented
                results.append(False if all(r is False for r in each) else None)
            else:
                results.append(each[0])
    if len(live) != len(target) or None in lkeys or len(set(lkeys)) != len(lkeys):
        results.append(None)  # extra members
    if len({loose(k) for k in lkeys if k}) != len([k for k in lkeys if k]):
        results.append(None)
    return both(results)


def loose(key):
    """Keys which may be taken for one another, such as 1 and "1"."""

    def text(v):
        if isinstance(v, float) and v == int(v):
            v = int(v)
        return str(v).strip().lower().removesuffix(".0")

    return tuple(text(json.loads(a)) for a in key)


def expected_payload(target):
    """A target as it is to be sent."""
    out = strip(target)
    meta = out.get("metadata")
    notes = meta.get("annotations") if isinstance(meta, dict) else None
    if isinstance(notes, dict):
        notes.pop(LAST_APPLIED, None)
    return out


# --------------------------------------------------------------------------
# definitions
# --------------------------------------------------------------------------

KEYS = ["alpha", "b", "cfg", "items", "ports", "name", "a.b/c", "labels", "ownerReferences",
        "metadata", "tags", "env", "data", "kind", "x-other", "status"]  # fmt: skip


#: two-field keys that look alike once joined
TRICKY = [("a", "bc"), ("ab", "c"), ("a$b", "c"), ("a", "b$c"), ("a", "b c"), ("a b", "c"), ("a,b", "c"), ("a", "b,c"), ("a/b", "c"), ("a", "b/c")]


class Definition:
    """One version of the function and what it uses."""

    def __init__(self, world: "RfWorld", ch, opts: Options, earlier=None):
        self.world, self.ch, self.opts = world, ch, opts
        self.kind = earlier.kind if earlier else ch.pick(opts.kinds)
        self.version, self.kindname, self.plural, self.namespaced, self.given = self.kind
        o = opts
        ienv = record_env("inputs")
        self.locals = {}
        self.env = list(ienv)
        if ch.chance(40):
            self.locals["q"] = E.X(E.Gen(ch, ienv).gen("int", 2))
            self.locals["word"] = ch.pick(E.WORDS)
            self.env += [("int", "locals", ("q",)), ("str", "locals", ("word",))]
        if earlier and ch.chance(80):
            self.name_node, self.ns_node = earlier.name_node, earlier.ns_node
        else:
            self.name_node = ch.pick([
                ("path", "inputs", (("id", 0),)),
                ("bin", "+", ("path", "inputs", (("id", 0),)), ("lit", "-x")),
                ("lit", "fixed"),
                ("cond", ("path", "inputs", (("b", 0),)), ("lit", "one"), ("lit", "two")),
            ])  # fmt: skip
            self.ns_node = ch.pick([
                ("lit", "ns-a"), ("lit", "ns-a"), ("path", "inputs", (("ns", 0),)),
            ])  # fmt: skip
        self.owned = ch.chance(o.owned)
        self.explicit_owned = ch.bool()
        self.readonly = ch.chance(o.readonly)
        self.delete_if_exists = ch.chance(o.delete_if_exists)
        self.create = not ch.chance(o.no_create)
        self.create_delay = ch.weighted([(None, 1), (7, 2), (45, 2), (1, 1), (0, 1), (86400, 1)])
        self.update = ch.weighted(list(o.update))
        self.update_delay = ch.pick([11, 3, 52, 0, None])
        self.default_update = self.update == "patch" and ch.chance(25)
        self.preds = self.gen_preds("pre", o.pre, self.env[: len(ienv)])
        self.env_res = self.env + [
            (t, "resource", ("spec", k)) for k, t in TYPES.items()
        ]
        self.posts = self.gen_preds("post", o.post, self.env_res)
        self.template = None
        self.target = None
        if ch.chance(o.template):
            self.gen_template(earlier)
        else:
            self.target = self.gen_document(self.env)
        self.overlays = []
        if ch.chance(o.overlays):
            for i in range(ch.int(1, 3)):
                self.overlays.append(self.gen_overlay(i))
        self.create_overlay = None
        if ch.chance(o.create_overlay):
            self.create_overlay = self.gen_create_overlay()
        self.ret = {
            "who": E.X(("path", "resource", (("metadata", 0), ("name", 0)))),
            "id": E.X(("path", "inputs", (("id", 0),))),
        }
        if ch.chance(60) and not self.delete_if_exists:
            self.ret["n"] = E.X(("path", "resource", (("spec", 0), ("n", 0))))
        if ch.chance(30):
            self.ret["all"] = E.X(("path", "resource", (("spec", 0),)))
        if self.delete_if_exists:
            self.ret = {"gone": True}

    # -- parts -------------------------------------------------------------

    def gen_preds(self, marker, pct, env):
        ch = self.ch
        if not ch.chance(pct):
            return []
        out = []
        for i in range(ch.int(1, 2)):
            kind = ch.pick(["skip", "depSkip", "retry", "permFail", "ok"])
            node = ("lit", False) if ch.chance(50) else E.Gen(ch, env).gen("bool", 2)
            if ch.chance(8):
                node = E.Gen(ch, env).fail("bool")
            out.append(Pred(node, kind, ch.int(1, 90), f"{marker}{i}"))
        return out

    def scalar(self, env):
        ch = self.ch
        k = ch.below(10)
        if k < 4 and env is not None:
            t = ch.pick(["int", "str", "bool"])
            return E.X(E.Gen(ch, env).gen(t, 1))
        if k < 9:
            return ch.pick([0, 1, 7, -3, 1.5, 0.0, True, False, "", "word", "two words", "x/y:z", "100m"])
        return None if ch.chance(self.opts.null * 8) else "plain"

    def row(self, env, depth):
        """A list in a list, possibly of objects."""
        ch = self.ch
        if not depth or ch.chance(30):
            return [self.scalar(env) for _ in range(ch.int(0, 2))]
        return [self.gen_dict(env, depth - 1) if ch.chance(70) else [self.gen_dict(env, 0)] for _ in range(ch.int(1, 2))]

    def member(self, i):
        return [1, "a", True, 2.5, "b-c", 0, False, "word", -7][i]

    def gen_dict(self, env, depth):
        ch = self.ch
        out = {}
        sets, maps, lasts = [], {}, []
        for key in ch.shuffle(KEYS)[: ch.int(1, 4)]:
            kind = ch.weighted(
                [("scalar", 5), ("dict", 3 if depth else 0), ("list", 2), ("objects", 2 if depth else 0),
                 ("set", 2), ("map", 2), ("empty", 1), ("ilist", 1)]
            )  # fmt: skip
            directed = ch.chance(self.opts.directives)
            if kind == "scalar":
                out[key] = self.scalar(env)
                if directed and ch.chance(15):
                    lasts.append(key)
            elif kind == "dict":
                out[key] = self.gen_dict(env, depth - 1)
            elif kind == "list":
                out[key] = [
                    self.scalar(env) if ch.chance(85) else self.row(env, depth) for _ in range(ch.int(0, 3))
                ]
            elif kind == "objects":
                out[key] = [self.gen_dict(env, depth - 1) for _ in range(ch.int(1, 2))]
            elif kind == "ilist" and env is not None:
                out[key] = E.X(E.Gen(ch, env).gen("ilist", 1))
            elif kind == "set":
                members = ch.shuffle(range(9))[: ch.int(0, 4)]
                if members and ch.chance(12):
                    members = [*members, ch.pick(members)]
                out[key] = [self.member(m) for m in members]
                if directed:
                    sets.append(key)
            elif kind == "map":
                fields = ch.pick([["name"], ["id"], ["name", "proto"]])
                members = []
                tricky = len(fields) == 2 and ch.chance(35)
                for m in ch.shuffle(TRICKY if tricky else ["m1", "m2", "m3"])[: ch.int(0, 3)]:
                    item = {"value": self.scalar(env)}
                    if tricky:
                        item |= zip(fields, m)
                    else:
                        for f in fields:
                            item[f] = m if f != "proto" else ch.pick(["tcp", "udp"])
                    if depth and ch.chance(25):
                        item["more"] = self.gen_dict(env, depth - 1)
                    members.append(item)
                out[key] = members
                if directed:
                    maps[key] = fields
            else:
                out[key] = ch.pick([{}, []])
        self.put_directives(out, sets, maps, lasts)
        return out

    def put_directives(self, out, sets, maps, lasts):
        if sets:
            out[AS_SET] = sets
        if maps:
            out[AS_MAP] = maps
        if lasts:
            out[AS_LAST] = lasts

    def attack(self, env=None):
        """Pieces that try to redirect the object."""
        ch = self.ch
        out = {}
        if ch.chance(40):
            out["apiVersion"] = ch.pick(["evil/v1", None, {"a": "b"}])
        if ch.chance(40):
            out["kind"] = ch.pick(["Secret", None, ["Secret"]])
        k = ch.below(6)
        if k <= 2:
            meta = {}
            if ch.chance(60):
                meta["name"] = ch.pick(["evil", None, {"n": "evil"}, ["evil"], "", 7])
            if ch.chance(60):
                meta["namespace"] = ch.pick(["kube-system", None, {"x": "y"}, ""])
            out["metadata"] = meta
        elif k == 3:
            out["metadata"] = ch.pick([None, "evil", [], ["evil"], {}])
        elif k == 4 and env is not None:
            out["metadata"] = {"name": E.X(("bin", "+", ("path", "inputs", (("id", 0),)), ("lit", "-evil")))}
        return out

    def gen_meta(self, env):
        ch = self.ch
        meta = {}
        if ch.chance(50):
            meta["labels"] = {"app": "x", **({"n": E.X(E.Gen(ch, env).gen("str", 1))} if env is not None else {})}
        if ch.chance(35):
            meta["annotations"] = ch.pick([{}, {"note": "n"}, {"note": "n", "other": "o"}])
        if ch.chance(6):
            meta.setdefault("annotations", {})
            meta["annotations"] = {**meta["annotations"], LAST_APPLIED: ch.pick(["{}", "stale", '{"spec": {"n": 1}}'])}
        if ch.chance(20):
            meta["finalizers"] = ["f/one", "f/two"]
            if ch.bool():
                meta[AS_SET] = ["finalizers"]
        if ch.chance(8):
            meta["ownerReferences"] = [{"apiVersion": "v1", "kind": "Other", "name": "declared", "uid": "uid-declared"}]
        return meta

    def gen_document(self, env):
        ch = self.ch
        spec = self.gen_dict(env, 2)
        for k in RECORD:
            spec[k] = (
                E.Gen(ch, []).literal(TYPES[k]) if env is None else E.X(E.Gen(ch, env).gen(TYPES[k], 1))
            )
        if ch.chance(self.opts.directives // 2):
            spec[AS_SET] = [*spec.get(AS_SET, []), "l"]
        doc = {"spec": spec}
        if ch.chance(30):
            doc["data"] = self.gen_dict(env, 1)
        elif ch.chance(20):  # plain, mostly empty, members
            for key in ch.subset(("data", "rules", "immutable", "replicas", "text"), 40):
                doc[key] = copy.deepcopy(ch.pick([{}, [], False, 0, "", "größe — \"漢\" \\ \n\t", 1.5, True]))
        meta = self.gen_meta(env)
        if meta:
            doc["metadata"] = meta
        if ch.chance(self.opts.attack):
            doc = merge_specs(doc, self.attack(env))
        if env is not None and ch.chance(self.opts.fail):
            spec[ch.pick(RECORD)] = E.X(E.Gen(ch, env).fail("int"))
        return doc

    def gen_template(self, earlier):
        ch = self.ch
        self.templates = {}
        for name in ("t-a", "t-b"):
            doc = self.gen_document(None)
            doc["apiVersion"] = doc["apiVersion"] if isinstance(doc.get("apiVersion"), str) else self.version
            doc["kind"] = doc["kind"] if isinstance(doc.get("kind"), str) else self.kindname
            if not isinstance(doc.get("metadata"), dict):
                doc.pop("metadata", None)
            self.templates[name] = doc
        self.template = ch.pick([
            ("lit", "t-a"),
            ("cond", ("path", "inputs", (("b", 0),)), ("lit", "t-a"), ("lit", "t-b")),
            ("bin", "+", ("lit", "t-"), ("cond", ("path", "inputs", (("b", 0),)), ("lit", "b"), ("lit", "a"))),
        ])  # fmt: skip

    def gen_overlay(self, i):
        ch = self.ch
        entry = {"skip": None, "inline": None, "vf": None}
        if ch.chance(30):
            entry["skip"] = ("lit", True) if ch.chance(40) else E.Gen(ch, self.env).gen("bool", 1)
            if ch.chance(self.opts.fail):
                entry["skip"] = E.Gen(ch, self.env).fail("bool")
        if ch.chance(65):
            entry["inline"] = self.gen_overlay_doc(self.env_res)
        else:
            env = record_env("inputs") + [
                (t, "resource", ("spec", k)) for k, t in TYPES.items()
            ]
            entry["vf"] = {
                "name": f"ov-{self.world.serial()}",
                "preds": [],
                "ret": self.gen_overlay_doc(env),
            }
            entry["inputs"] = {k: E.X(("path", "inputs", ((k, 0),))) for k in (*RECORD, "id")}
            if ch.chance(30):
                entry["inputs"]["n"] = E.X(E.Gen(ch, self.env).gen("int", 1))
            if ch.chance(15):
                entry["vf"]["preds"] = [
                    Pred(
                        ("lit", False) if ch.bool() else E.Gen(ch, env).gen("bool", 1),
                        ch.pick(["retry", "permFail", "skip", "depSkip", "ok"]),
                        ch.int(1, 90), "overlaypre",
                    )
                ]  # fmt: skip
        return entry

    def gen_overlay_doc(self, env):
        ch = self.ch
        spec = {}
        for k in ch.subset(RECORD, 40):
            spec[k] = E.X(E.Gen(ch, env).gen(TYPES[k], 1))
        if ch.chance(60):
            spec = {**self.gen_dict(env, 1), **spec}
        doc = {}
        if spec:
            doc["spec"] = spec
        if ch.chance(40):
            meta = self.gen_meta(env)
            if meta:
                doc["metadata"] = meta
        if ch.chance(self.opts.attack):
            doc = merge_specs(doc, self.attack(env))
        if ch.chance(self.opts.fail):
            doc.setdefault("data", {"oops": E.X(E.Gen(ch, env).fail("int"))})
        return doc or {"data": {"k": 1}}

    def gen_create_overlay(self):
        ch = self.ch
        doc = {}
        if ch.chance(70):
            doc["createOnly"] = {"token": "t", "n": E.X(E.Gen(ch, self.env_res).gen("int", 1))}
        if self.update != "recreate" and ch.chance(self.opts.create_contradicts):
            # created one way, then patched
            doc["spec"] = {"n": 4242}
        if ch.chance(40):
            doc["metadata"] = {"annotations": {"created": "yes"}}
        if ch.chance(20):
            doc.setdefault("createOnly", {})
            doc["createOnly"][AS_SET] = ["tags"]
            doc["createOnly"]["tags"] = ["a", "b"]
        if ch.chance(self.opts.attack):
            doc = merge_specs(doc, self.attack(self.env))
        return doc or {"createOnly": {"k": True}}

    # -- rendering -----------------------------------------------------------

    def spec(self):
        api = {
            "apiVersion": self.version,
            "kind": self.kindname,
            "name": E.expr(self.name_node),
        }
        if self.given:
            api["plural"] = self.plural
        if self.namespaced:
            api["namespace"] = E.expr(self.ns_node)
        else:
            api["namespaced"] = False
        if not self.owned or self.explicit_owned:
            api["owned"] = self.owned
        if self.readonly:
            api["readonly"] = True
        if self.delete_if_exists:
            api["deleteIfExists"] = True
        spec = {"apiConfig": api, "return": E.render(self.ret)}
        if self.preds:
            spec["preconditions"] = [p.spec() for p in self.preds]
        if self.posts:
            spec["postconditions"] = [p.spec() for p in self.posts]
        if self.locals:
            spec["locals"] = E.render(self.locals)
        if self.template:
            spec["resourceTemplateRef"] = {"name": E.expr(self.template)}
        else:
            spec["resource"] = E.render(self.target)
        if self.overlays:
            spec["overlays"] = []
            for entry in self.overlays:
                out = {}
                if entry["inline"] is not None:
                    out["overlay"] = E.render(entry["inline"])
                else:
                    out["overlayRef"] = {"kind": "ValueFunction", "name": entry["vf"]["name"]}
                    out["inputs"] = E.render(entry["inputs"])
                if entry["skip"] is not None:
                    out["skipIf"] = E.expr(entry["skip"])
                spec["overlays"].append(out)
        create = {"enabled": self.create}
        if self.create and self.create_delay is not None:
            create["delay"] = self.create_delay
        if self.create and self.create_overlay is not None:
            create["overlay"] = E.render(self.create_overlay)
        if not (self.create and len(create) == 1):
            spec["create"] = create
        if not self.default_update:
            spec["update"] = {
                self.update: {} if self.update == "never" or self.update_delay is None else {"delay": self.update_delay}
            }
        return spec

    @property
    def expected_create_delay(self):
        return 30 if self.create_delay is None else self.create_delay

    @property
    def expected_update_delay(self):
        return 30 if self.default_update or self.update_delay is None else self.update_delay

    # -- reference -----------------------------------------------------------

    def identity(self, env):
        """(name, namespace) or EvalFail."""
        name = E.ev(self.name_node, env)
        ns = E.ev(self.ns_node, env) if self.namespaced else None
        return str(name), (str(ns) if ns else None)

    def materialize(self, env, name, ns):
        """The target, an Out, or EvalFail."""
        forced = {
            "apiVersion": self.version, "kind": self.kindname,
            "metadata": {"name": name, **({"namespace": ns} if ns is not None else {})},
        }  # fmt: skip
        if self.template:
            key = E.ev(self.template, env)
            doc = copy.deepcopy(self.templates[key])
        else:
            doc = E.evs(self.target, env)
        doc = merge(doc, forced)
        for entry in self.overlays:
            if entry["skip"] is not None and E.ev(entry["skip"], env):
                continue
            if entry["inline"] is not None:
                doc = merge(doc, E.evs(entry["inline"], {**env, "resource": doc}))
                continue
            vf_env = {"inputs": E.evs(entry["inputs"], env), "resource": doc}
            if out := eval_preds(entry["vf"]["preds"], vf_env):
                return out, forced
            doc = merge(doc, E.evs(entry["vf"]["ret"], vf_env))
        if self.overlays:
            doc = merge(doc, forced)
        return doc, forced

    def expect(self, rec: "Pass"):
        """Fill in what the documentation says this pass has to do."""
        try:
            self._expect(rec)
        except E.Open:
            rec.action = "open"
            rec.expected = rec.target = rec.created = rec.meets = rec.owner_ok = None

    def _expect(self, rec: "Pass"):
        env = {"inputs": rec.inputs}
        rec.action = None
        if out := eval_preds(self.preds, env):
            rec.action, rec.expected = "precondition", out
            return
        try:
            env["locals"] = E.evs(self.locals, env)
            rec.name, rec.ns = self.identity(env)
        except E.EvalFail:
            rec.action, rec.expected = "unevaluable", Out("permfail")
            return
        if self.namespaced and not rec.ns:
            rec.action, rec.expected = "unevaluable", Out("permfail")
            return
        rec.key = (self.version, self.plural, rec.ns, rec.name)
        if not rec.got:
            if rec.calls or not rec.clean:
                rec.action = "not-loaded"
                return
            # it did not even look
            rec.got, rec.live = True, rec.before.get(rec.key)
        live = rec.live
        try:
            rec.target, forced = self.materialize(env, rec.name, rec.ns)
        except E.EvalFail:
            rec.target = None
        if isinstance(rec.target, Out):
            rec.stop, rec.target = rec.target, None
        if self.delete_if_exists:
            if live is None:
                rec.action = "goes-on"
                self.finish(rec, env, {})
            else:
                rec.action, rec.expected = "delete-if-exists", Out("retry", delay=30)
            return
        if live is None and (self.readonly or not self.create):
            rec.action, rec.expected = "waiting", Out("retry", delay=30)
            return
        if self.readonly:
            rec.action = "goes-on"
            self.finish(rec, env, live)
            return
        if rec.target is None:
            rec.action, rec.expected = "unevaluable", rec.stop or Out("permfail")
            return
        owner_ns, owner_ref = rec.owner
        rec.should_own = self.owned and self.namespaced and owner_ns == rec.ns
        if live is None:
            rec.action, rec.expected = "create", Out("retry", delay=self.expected_create_delay)
            rec.created = rec.target
            if self.create_overlay is not None:
                try:
                    rec.created = merge(
                        rec.target, E.evs(self.create_overlay, {**env, "resource": rec.target})
                    )
                    rec.created = merge(rec.created, forced)
                except E.EvalFail:
                    rec.action, rec.expected = "unevaluable", Out("permfail")
            return
        rec.meets = meets(rec.target, live, last_applied(live))
        rec.owner_ok = not rec.should_own or owner_ref["uid"] in owner_uids(live)
        if rec.meets and rec.owner_ok:
            rec.action = "goes-on"
            self.finish(rec, env, live)
            return
        if rec.meets is None:
            rec.action = "open"
            return
        if self.update == "never":
            rec.action = "goes-on"
            self.finish(rec, env, live)
            return
        if rec.meets:
            # only the owner reference is missing
            rec.action = "patch" if self.update == "patch" else "open"
        else:
            rec.action = "patch" if self.update == "patch" else "recreate"
        rec.expected = Out("retry", delay=self.expected_update_delay)

    def finish(self, rec, env, live):
        env = {**env, "resource": live}
        if out := eval_preds(self.posts, env):
            rec.expected = out
            return
        try:
            rec.expected = Out("ok", E.evs(self.ret, env))
        except E.EvalFail:
            rec.expected = Out("permfail")


def merge_specs(doc, piece):
    """Like `merge`, for unevaluated structures."""
    out = dict(doc)
    for key, value in piece.items():
        if isinstance(value, dict) and isinstance(out.get(key), dict):
            out[key] = merge_specs(out[key], value)
        else:
            out[key] = value
    return out


def last_applied(live):
    try:
        out = json.loads(live["metadata"]["annotations"][LAST_APPLIED])
    except (KeyError, TypeError, ValueError):
        return None
    return out if isinstance(out, dict) else None


def owner_refs(obj):
    meta = obj.get("metadata") if isinstance(obj, dict) else None
    refs = meta.get("ownerReferences") if isinstance(meta, dict) else None
    return refs if isinstance(refs, list) else []


def owner_uids(obj):
    return [r.get("uid") for r in owner_refs(obj) if isinstance(r, dict)]


# --------------------------------------------------------------------------
# passes
# --------------------------------------------------------------------------


class Pass:
    """One recorded pass."""

    def __init__(self, number, definition, inputs, owner):
        self.number, self.definition = number, definition
        self.inputs, self.owner = inputs, owner
        self.got = False  # the object (or its absence) was read
        self.live = None  # as read
        self.before = {}  # every object when the pass began
        self.calls = []
        self.lookups = []
        self.effects = []  # (call, object before, object after)
        self.faulted = False
        self.cancelled = False
        self.raced = False
        self.exc = None
        self.cls = self.value = self.delay = self.message = None
        self.resource_id = self.outcome = None
        # reference
        self.action = self.expected = self.target = self.created = None
        self.stop = None
        self.name = self.ns = self.key = None
        self.meets = self.owner_ok = None
        self.should_own = False

    @property
    def mutations(self):
        return [c for c in self.calls if c.mutating]

    @property
    def clean(self):
        """Nothing but the function itself decided what happened."""
        return not (self.faulted or self.cancelled or self.raced)

    def where(self):
        return (
            f"pass {self.number} ({self.action}) {self.definition.kindname} {self.ns}/{self.name}: "
            f"calls {self.calls} -> {self.cls or self.exc!r}"
        )


class RfWorld:
    def __init__(self, ctx: Ctx, opts: Options):
        self.ctx, self.opts = ctx, opts
        self.ch = ctx.stream("gen")
        self.act = ctx.stream("act")
        self.net = ctx.stream("net")
        self.serials = 0
        self.cluster = Cluster(ctx)
        for version, kind, plural, namespaced, _ in opts.kinds:
            self.cluster.define(version, kind, plural)
        self.defs_made = 0
        self.passes: list[Pass] = []
        self.definition: Definition | None = None
        self.function = None
        self.stray = 0

    def serial(self):
        self.serials += 1
        return self.serials

    def gen_inputs(self):
        ch = self.act
        return {
            "n": ch.int(0, 5), "s": ch.pick(E.WORDS), "b": ch.bool(),
            "l": [ch.int(0, 3) for _ in range(ch.int(0, 3))],
            "id": ch.weighted([("obj", 5), ("obj-2", 1)]),
            "ns": ch.weighted([("ns-a", 20), ("ns-b", 4), ("", 1)]),
        }  # fmt: skip

    def gen_owner(self):
        ch = self.act
        ns = ch.weighted([("ns-a", 5), ("ns-b", 1)])
        uid = ch.weighted([("uid-parent", 5), ("uid-parent-2", 1)])
        return (ns, {
            "apiVersion": "koreo.dev/v1", "kind": "Trigger", "name": "parent", "uid": uid,
            "blockOwnerDeletion": True, "controller": False,
        })  # fmt: skip

    def mutate(self, definition):
        """Lets a property change what was generated."""

    async def define(self):
        from koreo.cache import prepare_and_cache
        from koreo.resource_function.prepare import prepare_resource_function
        from koreo.resource_function.structure import ResourceFunction
        from koreo.resource_template.prepare import prepare_resource_template
        from koreo.resource_template.structure import ResourceTemplate
        from koreo.value_function.prepare import prepare_value_function
        from koreo.value_function.structure import ValueFunction

        d = Definition(self, self.ch, self.opts, self.definition)
        self.mutate(d)
        self.defs_made += 1
        version = str(self.defs_made)
        needed = []
        if d.template:
            for name, doc in d.templates.items():
                needed.append((ResourceTemplate, prepare_resource_template, name, {"template": doc}))
        for entry in d.overlays:
            if entry["vf"]:
                vf = entry["vf"]
                spec = {"return": E.render(vf["ret"])}
                if vf["preds"]:
                    spec["preconditions"] = [p.spec() for p in vf["preds"]]
                needed.append((ValueFunction, prepare_value_function, vf["name"], spec))
        needed.append((ResourceFunction, prepare_resource_function, "rf", d.spec()))
        for cls, preparer, name, spec in needed:
            self.ctx.log(f"define {cls.__name__} {name} {json.dumps(spec, sort_keys=True)}")
            out = await prepare_and_cache(
                resource_class=cls, preparer=preparer,
                metadata={"name": name, "resourceVersion": version}, spec=copy.deepcopy(spec),
            )  # fmt: skip
            if type(out).__name__ in ("PermFail", "Retry"):
                raise Refused(out, f"{name}: {out}\n{json.dumps(spec)}")
        self.definition, self.function = d, out
        self.needed = needed

    # -- one pass --------------------------------------------------------------

    async def run(self, inputs, owner, fault=False, cancel=False) -> Pass:
        from koreo.resource_function.reconcile import reconcile_resource_function

        ctx, net = self.ctx, self.net
        d = self.definition
        rec = Pass(len(self.passes), d, inputs, owner)
        rec.before = copy.deepcopy(self.cluster.objects)
        self.passes.append(rec)

        def policy(call):
            plan = Plan(turns=net.below(3))
            if net.chance(30):
                plan.before, plan.after = net.below(40) / 100, net.below(40) / 100
            if fault and net.chance(60):
                plan.fault = net.pick(("hang", *ERROR_KINDS))
                plan.applied = net.bool()
                rec.faulted = True
            return plan

        api = SimApi(ctx, self.cluster, policy)

        def lookup(kind):
            if fault and net.chance(30):
                rec.faulted = True
                return Plan(fault=net.pick(("http500", "value", "timeout", "runtime")))
            return Plan(turns=net.below(2))

        api.lookup_policy = lookup
        befores = {}

        def on_effect(call):
            key = (call.version, call.plural, call.namespace, call.name)
            if call.method == "GET":
                if call.fault is None:
                    rec.live = copy.deepcopy(self.cluster.objects.get(key))
                    rec.got = True
            elif call.status is not None and call.status < 400:
                rec.effects.append((call, befores.get(id(call)), copy.deepcopy(self.cluster.objects.get(key))))
            else:
                rec.faulted = True  # the server refused

        original = self.cluster.apply

        def apply(call):
            if call.mutating and call in api.calls:
                key = (call.version, call.plural, call.namespace, call.name)
                befores[id(call)] = copy.deepcopy(self.cluster.objects.get(key))
            return original(call)

        api.cluster = Shim(self.cluster, apply)
        api.on_effect = on_effect

        async def go():
            return await reconcile_resource_function(
                api=api, location="test", function=self.function,
                owner=copy.deepcopy(owner), inputs=E.to_cel(copy.deepcopy(inputs)),
            )  # fmt: skip

        ctx.log(f"pass {rec.number} inputs {json.dumps(inputs, sort_keys=True)} owner {owner[0]}/{owner[1]['uid']}")
        task = asyncio.ensure_future(go())
        try:
            if cancel:
                await asyncio.wait({task}, timeout=net.below(60) / 100)
                if not task.done():
                    task.cancel()
                    rec.cancelled = True
                    ctx.fault("pass-abandoned")
            async with asyncio.timeout(60):
                result = await task
        except asyncio.CancelledError as err:
            rec.exc = err
        except TimeoutError as err:
            rec.exc = err
            if not task.cancelled():
                pass
        except Exception as err:
            rec.exc = err
            rec.trace = err
        else:
            if not hasattr(result, "outcome"):
                raise Violation("no-outcome", f"{result!r}: {rec.where()}")
            rec.outcome = result.outcome
            rec.cls, rec.value, rec.delay, rec.message = outcome_of(result.outcome)
            rec.resource_id = result.resource_id
        rec.calls, rec.lookups = api.calls, api.lookups
        if any(c.method == "GET" and c.fault for c in api.calls):
            # read, but the answer was lost
            rec.got = False
        d.expect(rec)
        ctx.log(f"  {rec.where()} meets={rec.meets} owner_ok={rec.owner_ok} clean={rec.clean}")
        ctx.state(f"{rec.action}:{d.update}:{d.owned}:{rec.meets}:{rec.owner_ok}:{rec.clean}:{[c.method for c in rec.calls]}")
        if len(rec.calls):
            ctx.nontrivial = True
        return rec


class Shim:
    """The cluster, with one request observed."""

    def __init__(self, cluster, apply):
        self._cluster, self.apply = cluster, apply

    def __getattr__(self, name):
        return getattr(self._cluster, name)


# --------------------------------------------------------------------------
# other actors
# --------------------------------------------------------------------------


def walk(value, path=()):
    """Every place of a document, directives left out."""
    yield path
    if isinstance(value, dict):
        for k, v in value.items():
            if k not in DIRECTIVES:
                yield from walk(v, (*path, k))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from walk(v, (*path, i))


PINNED = [("apiVersion",), ("kind",), ("metadata",), ("metadata", "name"), ("metadata", "namespace"),
          ("metadata", "annotations"), ("metadata", "ownerReferences"), ("metadata", "annotations", LAST_APPLIED), ()]  # fmt: skip


def pinned(path):
    return path in PINNED or path[:2] == ("metadata", "ownerReferences")


def at(doc, path):
    for p in path:
        try:
            doc = doc[p]
        except (KeyError, IndexError, TypeError):
            return MISSING
    return doc


def put_at(doc, path, value):
    parent = at(doc, path[:-1])
    key = path[-1]
    if isinstance(parent, dict) and isinstance(key, str):
        if value is MISSING:
            parent.pop(key, None)
        else:
            parent[key] = value
        return True
    if isinstance(parent, list) and isinstance(key, int) and key < len(parent):
        if value is MISSING:
            del parent[key]
        else:
            parent[key] = value
        return True
    return False


def drift_to(ch, now):
    """A different value."""
    retyped = [None, "", 0, False, True, 1, "x", [], {}, ["z"], {"z": 1}, 1.5, MISSING]
    if ch.chance(45):
        return copy.deepcopy(ch.pick(retyped))
    if now is MISSING:
        return "appeared"
    if isinstance(now, bool):
        return ch.pick([not now, int(now), str(now).lower()])
    if isinstance(now, (int, float)):
        return ch.pick([now + 1, str(now), -now - 1, bool(now)])
    if isinstance(now, str):
        return ch.pick([now + "x", now.upper() + "Y", "", now + " ", now[:-1]])
    if isinstance(now, list):
        k = ch.below(5)
        if k == 0:
            return now + [copy.deepcopy(now[0]) if now else 1]
        if k == 1:
            return now[:-1]
        if k == 2:
            return now + ["extra"]
        if k == 3:
            return list(reversed(now))
        return now[1:] + ["other"]
    if isinstance(now, dict):
        out = copy.deepcopy(now)
        if out:
            out.pop(sorted(out)[ch.below(len(out))])
        return out
    return "not-null"


def drift(world, ch, target, obj):
    places = [p for p in walk(target) if not pinned(p)]
    if not places:
        return False
    path = ch.pick(places)
    now = at(obj, path)
    new = drift_to(ch, now)
    done = put_at(obj, path, new)
    if done:
        world.ctx.fault("drift")
        world.ctx.log(f"  drift {path}: {now if now is not MISSING else 'missing'!r} -> {new if new is not MISSING else 'removed'!r}")
    return done


def decorate(world, ch, obj):
    """Additions a server or another controller makes."""
    places = [
        p for p in walk(obj)
        if isinstance(at(obj, p), dict) and "ownerReferences" not in p[:2]
    ]  # fmt: skip
    for _ in range(ch.int(1, 3)):
        path = ch.pick(places)
        spot = at(obj, path)
        if path in ((), ("metadata",)):
            choice = ch.below(4)
            if choice == 0:
                obj["status"] = {"ready": True, "conditions": [{"type": "Ready"}]}
            elif choice == 1:
                obj["metadata"]["generation"] = ch.int(1, 9)
            elif choice == 2:
                obj["metadata"]["managedFields"] = [{"manager": "koreo", "x": None}]
            else:
                obj["metadata"].setdefault("labels", {})
                if isinstance(obj["metadata"]["labels"], dict):
                    obj["metadata"]["labels"]["added"] = "yes"
        elif path == ("metadata", "annotations"):
            spot["server/added"] = "note"
        elif isinstance(spot, dict) and path[:2] != ("metadata", "annotations") and "zzAdded" not in spot:
            spot["zzAdded"] = ch.pick([1, None, {"d": []}, ["x"], "s"])
    world.ctx.fault("decorate")


def reorder(world, ch, target, obj):
    """Permute set- and map-directed lists."""
    done = False

    def visit(t, o):
        nonlocal done
        if isinstance(t, dict) and isinstance(o, dict):
            for key in [*(t.get(AS_SET) or ()), *(t.get(AS_MAP) or {})]:
                if isinstance(o.get(key), list) and len(o[key]) > 1:
                    o[key] = ch.shuffle(o[key])
                    done = True
                    if key in (t.get(AS_SET) or ()) and ch.chance(25):
                        if ch.bool():
                            o[key].append(copy.deepcopy(ch.pick(o[key])))
                        else:  # whatever is repeated is kept once
                            o[key] = [v for i, v in enumerate(o[key]) if atom(v) not in map(atom, o[key][:i])]
            for k, v in t.items():
                if k not in DIRECTIVES and k in o:
                    visit(v, o[k])
        elif isinstance(t, list) and isinstance(o, list):
            for a, b in zip(t, o):
                visit(a, b)

    visit(target, obj)
    if done:
        world.ctx.fault("reorder")
    return done


def change_owners(world, ch, obj):
    refs = owner_refs(obj)
    k = ch.below(5)
    foreign = {"apiVersion": "v1", "kind": "Foreign", "name": f"f{ch.below(3)}", "uid": f"uid-foreign-{ch.below(3)}"}
    if ch.chance(35):  # much like this parent, but another object
        foreign = {
            **world.passes[-1].owner[1], "uid": foreign["uid"],
            "controller": ch.bool(), "name": ch.pick(["parent", "other"]),
        } if world.passes else foreign  # fmt: skip
    if k == 0:
        refs = [*refs, foreign] if foreign["uid"] not in owner_uids(obj) else refs
    elif k == 1:
        refs = [r for r in refs if r.get("uid") != "uid-parent"]
    elif k == 2:
        refs = [foreign, *[r for r in refs if r.get("uid") == "uid-parent"]]
    elif k == 3:
        known = owner_uids(obj)
        more = [{**foreign, "name": f"m{i}", "uid": f"uid-many-{i}"} for i in range(ch.int(3, 12))]
        refs = [*refs, *[r for r in more if r["uid"] not in known]]
    else:
        refs = []
    if refs or ch.bool():
        obj["metadata"]["ownerReferences"] = copy.deepcopy(refs)
    else:
        obj["metadata"].pop("ownerReferences", None)
    world.ctx.fault("owners-changed")


def damage(world, ch, obj):
    notes = obj["metadata"].get("annotations")
    if not isinstance(notes, dict):
        notes = obj["metadata"]["annotations"] = {}
    k = ch.below(6)
    if k == 0:
        notes.pop(LAST_APPLIED, None)
    elif k == 1:
        notes[LAST_APPLIED] = "{not json"
    elif k == 2:
        notes[LAST_APPLIED] = ch.pick(["[]", '"text"', "7", "null", "{}"])
    elif k == 3:
        obj["metadata"].pop("annotations", None)
    else:
        old = last_applied(obj)
        if isinstance(old, dict) and old:
            # types inside do not fit what is wanted any more
            places = [p for p in walk(old) if p]
            put_at(old, ch.pick(places), copy.deepcopy(ch.pick([None, "text", 7, ["x"], {"k": 1}, True])))
            notes[LAST_APPLIED] = json.dumps(old)
    world.ctx.fault("last-applied-damaged")


# --------------------------------------------------------------------------
# a history
# --------------------------------------------------------------------------


def server_decorator(ch):
    """How this server changes what it stores."""
    kind = ch.below(4)

    def drop_nulls(v):
        if isinstance(v, dict):
            return {k: drop_nulls(x) for k, x in v.items() if x is not None}
        if isinstance(v, list):
            return [drop_nulls(x) for x in v]
        return v

    def decorator(key, obj, event):
        if event not in ("create", "patch"):
            return obj
        if kind & 1 and event == "create":
            # pruning also happens inside lists
            obj = drop_nulls(obj)
        if kind & 2:
            obj.setdefault("status", {"phase": "Pending"})
            obj["metadata"].setdefault("creationTimestamp", "2024-01-01T00:00:00Z")
            if isinstance(obj.get("spec"), dict):
                obj["spec"].setdefault("serverDefault", 1)
        return obj

    return decorator


async def bystander(world: RfWorld):
    """Another function manages an object of another kind: it must reach that kind."""
    from koreo.cache import prepare_and_cache
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.reconcile import reconcile_resource_function
    from koreo.resource_function.structure import ResourceFunction

    ctx, act, d = world.ctx, world.act, world.definition
    others = [k for k in KINDS if k[:2] != (d.version, d.kindname)]
    namesakes = [k for k in others if k[1] == d.kindname or k[0] == d.version]
    version, kind, plural, namespaced, given = act.pick(namesakes if namesakes and act.chance(70) else others)
    api_config = {"apiVersion": version, "kind": kind, "name": act.pick(["bystander", "obj"])}
    if given:
        api_config["plural"] = plural
    if namespaced:
        api_config["namespace"] = "ns-a"
    else:
        api_config["namespaced"] = False
    spec = {"apiConfig": api_config, "resource": {"spec": {"bystander": True}}}
    function = await prepare_and_cache(
        resource_class=ResourceFunction, preparer=prepare_resource_function,
        metadata={"name": "bystander", "resourceVersion": str(world.serial())}, spec=spec,
    )  # fmt: skip
    if not isinstance(function, ResourceFunction):
        raise Refused(function, f"bystander: {function}")
    api = SimApi(ctx, world.cluster, lambda call: Plan())
    ctx.log(f"bystander {version} {kind}")
    await reconcile_resource_function(
        api=api, location="test", function=function, owner=copy.deepcopy(world.gen_owner()),
        inputs=E.to_cel(world.gen_inputs()),
    )  # fmt: skip
    wanted = (version, plural, "ns-a" if namespaced else None, api_config["name"])
    for call in api.calls:
        sent = (call.version, call.plural, call.namespace, call.name)
        if sent != wanted:
            raise Violation("bystander", f"{call} instead of {wanted}")
    if not api.calls:
        raise Violation("bystander", f"{version} {kind} was not managed")


async def history(world: RfWorld, judge, settle=True):
    """Run a history; `judge(rec, previous)` is called for each pass."""
    ctx, act, opts = world.ctx, world.act, world.opts
    await world.define()
    inputs, owner = world.gen_inputs(), world.gen_owner()
    world.cluster.decorator = server_decorator(act)

    def current_key():
        probe = Pass(-1, world.definition, inputs, owner)
        probe.got = True
        world.definition.expect(probe)
        return probe.key, probe.target

    key, target = current_key()
    start = act.weighted([("absent", 3), ("target", 5)])
    if key and target is not None and start == "target":
        obj = expected_payload(target)
        if act.chance(70):
            obj["metadata"].setdefault("annotations", {})
            if isinstance(obj["metadata"]["annotations"], dict):
                obj["metadata"]["annotations"][LAST_APPLIED] = json.dumps(expected_payload(target))
        if act.chance(60):
            obj["metadata"]["ownerReferences"] = [copy.deepcopy(owner[1])]
        world.cluster.put(key, obj)

    async def others():
        if opts.bystander and act.chance(opts.bystander):
            await bystander(world)

    await others()

    async def one(fault=False, cancel=False):
        rec = await world.run(inputs, owner, fault, cancel)
        judge(rec)
        return rec

    for _ in range(act.int(*opts.steps)):
        action = act.weighted(list(opts.actions))
        key, target = current_key()
        obj = world.cluster.objects.get(key) if key else None
        ctx.log(f"- {action}")
        if action == "inputs":
            inputs = world.gen_inputs()
            if act.chance(30):
                owner = world.gen_owner()
        elif action == "redefine":
            await world.define()
        elif obj is not None and action != "nothing":
            obj = copy.deepcopy(obj)
            if action == "drift" and target is not None:
                for _ in range(act.weighted([(1, 6), (2, 2)])):
                    drift(world, act, target, obj)
            elif action == "decorate":
                decorate(world, act, obj)
            elif action == "reorder" and target is not None:
                reorder(world, act, target, obj)
            elif action == "owners":
                change_owners(world, act, obj)
            elif action == "damage":
                damage(world, act, obj)
            if action == "delete":
                world.cluster.remove(key)
                ctx.fault("deleted-by-others")
            else:
                world.cluster.put(key, obj)
        await others()
        if act.chance(opts.twin):
            ctx.fault("racing-pass")
            a = asyncio.ensure_future(world.run(inputs, owner))
            b = asyncio.ensure_future(world.run(inputs, owner))
            recs = await asyncio.gather(a, b)
            for rec in recs:
                rec.raced = True
                judge(rec)
            continue
        await one(fault=act.chance(opts.api_fault), cancel=act.chance(opts.cancel))

    # the disturbances stop: it settles
    ctx.log("- settle")
    rec = None
    for round_ in range(5):
        rec = await one()
        if rec.created is not None and meets(rec.target, rec.created, rec.created) is not True:
            settle = False  # create.overlay contradicts the target
        if not rec.mutations:
            break
    else:
        if settle and not world.definition.delete_if_exists and not has_null(rec.target):
            ideal = expected_payload(rec.target) if rec.target is not None else None
            if ideal is None or meets(rec.target, ideal, ideal):  # the directives make sense
                raise_settle(world, rec)
    return rec


def raise_settle(world, rec):
    raise Violation("update-loop", f"still mutating after 5 undisturbed passes: {rec.where()}")
