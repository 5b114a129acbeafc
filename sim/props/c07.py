"""C07: management modes bound the API calls a ResourceFunction may make."""

from __future__ import annotations

from ..core import Ctx, Violation
from ..rfsim import Options, RfWorld, history

PROP = "C07"
LEVEL = "exploration"
COUNTS = {"quick": 4500, "thorough": 150000}
RULE = (
    "One scenario: a ResourceFunction (inline or template base, up to three inline or function "
    "overlays, create overlay, comparison directives at any depth, every mode and policy) is "
    "reconciled 4-14 times while other actors drift, decorate, reorder, adopt, damage and delete "
    "its object, inputs and definition change, requests fail, hang, lose their answer or race, "
    "and passes are abandoned; then undisturbed until it stops mutating. Non-trivial: the API was called."
)
STATE_MEASURE = "distinct (action, policy, owned, meets, owner reference, disturbed, calls) per pass"
REAL = [
    "koreo.resource_function", "koreo.value_function", "koreo.resource_template", "koreo.cel",
    "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server (RFC 7386 merge patch)", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "set-directed lists hold scalars; duplicate or extra members of map-directed lists and lists "
    "compared with last-applied values that disagree with the live object are left open",
    "an owner added by another actor between the read and the patch is out of scope",
]
OPTIONS = dict(
    pre=30,
    post=15,
    fail=3,
    attack=10,
    readonly=25,
    no_create=30,
    delete_if_exists=12,
    directives=25,
    update=(('patch', 3), ('recreate', 3), ('never', 3)),
    api_fault=30,
    actions=(('drift', 8), ('decorate', 1), ('reorder', 1), ('owners', 3), ('damage', 1), ('delete', 7), ('inputs', 4), ('redefine', 5), ('nothing', 2)),
)


def scenario(ctx: Ctx):
    world = RfWorld(ctx, Options(**OPTIONS))
    return ctx.run(lambda: history(world, judge, settle=False))


def judge(rec):
    d = rec.definition
    methods = [c.method for c in rec.calls if c.mutating]
    detail = (
        f"readonly={d.readonly} create={d.create} update={d.update} "
        f"deleteIfExists={d.delete_if_exists}: {rec.where()}"
    )
    if rec.action == "precondition" and (rec.calls or rec.lookups):
        raise Violation("called-despite-precondition", f"{rec.lookups} {detail}")
    forbidden = set()
    if d.delete_if_exists:
        forbidden = {"POST", "PATCH", "PUT"}
    else:
        if d.readonly:
            forbidden |= {"POST", "PATCH", "DELETE", "PUT"}
        if not d.create:
            forbidden |= {"POST"}
        if d.update != "patch":
            forbidden |= {"PATCH", "PUT"}
        if d.update != "recreate":
            forbidden |= {"DELETE"}
    if forbidden & set(methods):
        raise Violation("forbidden-call", f"{methods} {detail}")
    if len(methods) > 1:
        raise Violation("several-mutations", f"{methods} {detail}")
    if rec.got and rec.live is None and rec.key and (d.readonly or not d.create) and not d.delete_if_exists:
        if methods:
            raise Violation("mutated-while-absent", f"{methods} {detail}")
        if not (rec.faulted or rec.cancelled) and rec.cls != "retry":
            raise Violation("fabricated", f"{rec.value} {rec.message} {detail}")
