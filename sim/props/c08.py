"""C08: payloads are clean: no directives, truthful last-applied, owners preserved."""

from __future__ import annotations

import copy
import json

from ..core import Ctx, Violation
from .. import expr as E
from ..rfsim import DIRECTIVES, LAST_APPLIED, Options, RfWorld, history, owner_refs, owner_uids

PROP = "C08"
LEVEL = "exploration"
COUNTS = {"quick": 4500, "thorough": 150000}
RULE = (
    "One scenario: a ResourceFunction (inline or template base, up to three inline or function "
    "overlays, create overlay, comparison directives at any depth, every mode and policy) is "
    "reconciled 4-14 times while other actors drift, decorate, reorder, adopt, damage and delete "
    "its object, inputs and definition change, requests fail, hang, lose their answer or race, "
    "and passes are abandoned; then undisturbed until it stops mutating. Non-trivial: the API was called."
)
STATE_MEASURE = "distinct (action, policy, owned, meets, owner reference, disturbed, calls) per pass"
REAL = [
    "koreo.resource_function", "koreo.value_function", "koreo.resource_template", "koreo.cel",
    "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server (RFC 7386 merge patch)", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "set-directed lists hold scalars; duplicate or extra members of map-directed lists and lists "
    "compared with last-applied values that disagree with the live object are left open",
    "an owner added by another actor between the read and the patch is out of scope",
]
OPTIONS = dict(
    pre=2,
    post=3,
    fail=1,
    attack=8,
    readonly=1,
    no_create=1,
    delete_if_exists=0,
    directives=90,
    update=(('patch', 9), ('recreate', 1), ('never', 0)),
    overlays=65,
    create_overlay=50,
    template=35,
    actions=(('drift', 7), ('decorate', 1), ('reorder', 1), ('owners', 7), ('damage', 2), ('delete', 3), ('inputs', 4), ('redefine', 2), ('nothing', 1)),
)


def scenario(ctx: Ctx):
    world = RfWorld(ctx, Options(**OPTIONS))
    return ctx.run(lambda: history(world, judge, settle=False))


def judge(rec):
    for call in rec.calls:
        if call.method in ("POST", "PATCH", "PUT"):
            payload(rec, call)
    for call, before, after in rec.effects:
        if call.method == "PATCH" and rec.live is not None:
            kept = owner_uids(after)
            for uid in owner_uids(rec.live):
                if uid in owner_uids(before) and uid not in kept:
                    raise Violation("owner-dropped", f"{uid}: {rec.where()} {call.body}")


def payload(rec, call):
    body = call.body
    if place := directive(body):
        raise Violation("directive-sent", f"{place}: {rec.where()}")
    bare = copy.deepcopy(body)
    try:
        note = bare["metadata"]["annotations"].pop(LAST_APPLIED)
        said = json.loads(note)
    except (KeyError, TypeError, ValueError, AttributeError) as err:
        raise Violation("last-applied", f"{err!r}: {rec.where()} {body}")
    options = [bare]
    if bare["metadata"]["annotations"] == {}:
        # there only to carry the annotation
        without = copy.deepcopy(bare)
        del without["metadata"]["annotations"]
        options.append(without)
        if without["metadata"] == {}:
            options.append({k: v for k, v in without.items() if k != "metadata"})
    if not any(E.same(said, option) and same_types(said, option) for option in options):
        raise Violation("last-applied", f"says {said}, sent {bare}: {rec.where()}")
    d = rec.definition
    owner_ns, ref = rec.owner
    own = d.owned and rec.ns is not None and owner_ns == rec.ns
    sent = owner_uids(body)
    if sent.count(ref["uid"]) > 1:
        raise Violation("owner-repeated", f"{rec.where()} {body}")
    if call.method == "POST":
        if (ref["uid"] in sent) != own:
            raise Violation("create-owner", f"own={own}: {rec.where()} {body}")
    elif rec.live is not None:
        had = ref["uid"] in owner_uids(rec.live)
        if own and not had and ref["uid"] not in sent:
            raise Violation("patch-owner", f"not added: {rec.where()} {body}")
        if not own and not had and ref["uid"] in sent:
            raise Violation("patch-owner", f"added: {rec.where()} {body}")
    for sent_ref in owner_refs(body):
        if sent_ref.get("uid") == ref["uid"] and not (rec.live and ref["uid"] in owner_uids(rec.live)):
            if not E.same(sent_ref, ref):
                raise Violation("owner-reference", f"{sent_ref} for {ref}: {rec.where()}")


def same_types(a, b):
    """JSON text also tells 1 from 1.0."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def directive(value, path=""):
    if isinstance(value, dict):
        for k, v in value.items():
            if k in DIRECTIVES:
                return f"{path}/{k}"
            if found := directive(v, f"{path}/{k}"):
                return found
    elif isinstance(value, list):
        for i, v in enumerate(value):
            if found := directive(v, f"{path}/{i}"):
                return found
    return None
