"""C06: the managed object's identity is pinned to apiConfig."""

from __future__ import annotations

from ..core import Ctx, Violation
from ..rfsim import Options, RfWorld, history

PROP = "C06"
LEVEL = "exploration"
COUNTS = {"quick": 4500, "thorough": 150000}
RULE = (
    "One scenario: a ResourceFunction (inline or template base, up to three inline or function "
    "overlays, create overlay, comparison directives at any depth, every mode and policy) is "
    "reconciled 4-14 times while other actors drift, decorate, reorder, adopt, damage and delete "
    "its object, inputs and definition change, requests fail, hang, lose their answer or race, "
    "and passes are abandoned; then undisturbed until it stops mutating. Non-trivial: the API was called."
)
STATE_MEASURE = "distinct (action, policy, owned, meets, owner reference, disturbed, calls) per pass"
REAL = [
    "koreo.resource_function", "koreo.value_function", "koreo.resource_template", "koreo.cel",
    "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server (RFC 7386 merge patch)", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "set-directed lists hold scalars; duplicate or extra members of map-directed lists and lists "
    "compared with last-applied values that disagree with the live object are left open",
    "an owner added by another actor between the read and the patch is out of scope",
]
OPTIONS = dict(
    bystander=20,
    pre=3,
    post=5,
    fail=1,
    attack=75,
    readonly=2,
    no_create=2,
    delete_if_exists=1,
    directives=25,
    update=(('patch', 8), ('recreate', 1), ('never', 1)),
    overlays=75,
    create_overlay=60,
    template=40,
    actions=(('drift', 6), ('decorate', 1), ('reorder', 1), ('owners', 2), ('damage', 1), ('delete', 4), ('inputs', 5), ('redefine', 4), ('nothing', 2)),
)


def scenario(ctx: Ctx):
    world = RfWorld(ctx, Options(**OPTIONS))
    return ctx.run(lambda: history(world, judge, settle=False))


def judge(rec):
    for call in rec.calls:
        if call.method not in ("POST", "PATCH", "PUT"):
            continue
        if rec.key is None:
            raise Violation("no-identity", rec.where())
        d = rec.definition
        body = call.body
        meta = body.get("metadata") if isinstance(body, dict) else None
        if not isinstance(meta, dict):
            raise Violation("identity", f"no metadata: {rec.where()} {body}")
        sent = [body.get("apiVersion"), body.get("kind"), meta.get("name")]
        wanted = [d.version, d.kindname, rec.name]
        if d.namespaced:
            sent.append(meta.get("namespace"))
            wanted.append(rec.ns)
        if sent != wanted:
            raise Violation("identity", f"{sent} instead of {wanted}: {rec.where()}")
        addressed = (call.version, call.plural, call.name, call.namespace)
        if addressed != (d.version, d.plural, rec.name, rec.ns):
            raise Violation("addressed", f"{addressed}: {rec.where()}")
