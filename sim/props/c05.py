"""C05: drift in any target-specified field triggers the configured correction."""

from __future__ import annotations

from ..core import Ctx, Violation
from ..rfsim import Options, RfWorld, expected_payload, history, last_applied, meets

PROP = "C05"
LEVEL = "exploration"
COUNTS = {"quick": 4500, "thorough": 150000}
RULE = (
    "One scenario: a ResourceFunction (inline or template base, up to three inline or function "
    "overlays, create overlay, comparison directives at any depth, every mode and policy) is "
    "reconciled 4-14 times while other actors drift, decorate, reorder, adopt, damage and delete "
    "its object, inputs and definition change, requests fail, hang, lose their answer or race, "
    "and passes are abandoned; then undisturbed until it stops mutating. Non-trivial: the API was called."
)
STATE_MEASURE = "distinct (action, policy, owned, meets, owner reference, disturbed, calls) per pass"
REAL = [
    "koreo.resource_function", "koreo.value_function", "koreo.resource_template", "koreo.cel",
    "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server (RFC 7386 merge patch)", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "set-directed lists hold scalars; duplicate or extra members of map-directed lists and lists "
    "compared with last-applied values that disagree with the live object are left open",
    "an owner added by another actor between the read and the patch is out of scope",
]
OPTIONS = dict(
    pre=3,
    post=8,
    fail=1,
    attack=8,
    readonly=2,
    no_create=4,
    delete_if_exists=0,
    update=(('patch', 5), ('recreate', 3), ('never', 2)),
    actions=(('drift', 14), ('decorate', 2), ('reorder', 2), ('owners', 1), ('damage', 2), ('delete', 1), ('inputs', 3), ('redefine', 2), ('nothing', 1)),
)


def scenario(ctx: Ctx):
    world = RfWorld(ctx, Options(**OPTIONS))
    return ctx.run(lambda: history(world, judge, settle=False))


def judge(rec):
    d = rec.definition
    if rec.meets is False and not (rec.faulted or rec.cancelled):
        corrected(rec, d)
    for call, before, after in rec.effects:
        if call.method == "PATCH" and rec.target is not None:
            if meets(rec.target, after, last_applied(after)) is False:
                raise Violation("not-met-after-patch", f"{rec.where()} target {rec.target} now {after}")


def corrected(rec, d):
    detail = f"{rec.where()} policy {d.update} target {rec.target} live {rec.live}"
    if rec.exc is not None:
        raise Violation("correction-crashed", detail)
    done = [c.method for c in rec.mutations]
    wanted = {"patch": ["PATCH"], "recreate": ["DELETE"], "never": []}[d.update]
    if done != wanted:
        raise Violation("correction", f"{done} instead of {wanted}: {detail}")
    if d.update == "never":
        return
    if rec.cls != "retry" or rec.delay != d.expected_update_delay:
        raise Violation("correction-outcome", f"{rec.cls} {rec.delay}: {detail}")
    call = rec.mutations[0]
    if (call.version, call.plural, call.namespace, call.name) != rec.key:
        raise Violation("correction-elsewhere", f"{call} instead of {rec.key}: {detail}")
    if d.update == "patch":
        full = expected_payload(rec.target)
        if missing := lacks(full, call.body):
            raise Violation("partial-patch", f"{missing} not sent: {detail} sent {call.body}")


def lacks(target, body, path=""):
    if isinstance(target, dict):
        if not isinstance(body, dict):
            return path or "/"
        for k, v in target.items():
            if path == "/metadata" and k == "ownerReferences":
                # with the owners the object already has
                declared = [r.get("uid") for r in v if isinstance(r, dict)] if isinstance(v, list) else []
                sent = body.get(k)
                sent = [r.get("uid") for r in sent if isinstance(r, dict)] if isinstance(sent, list) else []
                if any(uid not in sent for uid in declared):
                    return f"{path}/{k}"
                continue
            if k not in body:
                return f"{path}/{k}"
            if found := lacks(v, body[k], f"{path}/{k}"):
                return found
        return None
    if isinstance(target, list):
        if not isinstance(body, list) or len(body) != len(target):
            return path
        for i, (a, b) in enumerate(zip(target, body)):
            if found := lacks(a, b, f"{path}/{i}"):
                return found
        return None
    return None if type(target) is type(body) and target == body else path
