"""C04: a ResourceFunction reaches a fixpoint: no mutation once the target is met."""

from __future__ import annotations

from ..core import Ctx, Violation
from .. import expr as E
from ..rfsim import Options, RfWorld, history, last_applied, meets

PROP = "C04"
LEVEL = "exploration"
COUNTS = {"quick": 4500, "thorough": 150000}
RULE = (
    "One scenario: a ResourceFunction (inline or template base, up to three inline or function "
    "overlays, create overlay, comparison directives at any depth, every mode and policy) is "
    "reconciled 4-14 times while other actors drift, decorate, reorder, adopt, damage and delete "
    "its object, inputs and definition change, requests fail, hang, lose their answer or race, "
    "and passes are abandoned; then undisturbed until it stops mutating. Non-trivial: the API was called."
)
STATE_MEASURE = "distinct (action, policy, owned, meets, owner reference, disturbed, calls) per pass"
REAL = [
    "koreo.resource_function", "koreo.value_function", "koreo.resource_template", "koreo.cel",
    "koreo.cache", "kr8s object and API client classes", "celpy",
]  # fmt: skip
STUB = ["HTTP transport and API server (RFC 7386 merge patch)", "kind discovery", "event loop selector, clock"]
ASSUMPTIONS = [
    "set-directed lists hold scalars; duplicate or extra members of map-directed lists and lists "
    "compared with last-applied values that disagree with the live object are left open",
    "an owner added by another actor between the read and the patch is out of scope",
]
OPTIONS = dict(
    pre=5,
    post=20,
    fail=2,
    attack=12,
    readonly=3,
    no_create=4,
    delete_if_exists=1,
    actions=(('decorate', 6), ('drift', 3), ('reorder', 6), ('owners', 3), ('damage', 3), ('delete', 1), ('inputs', 3), ('redefine', 2), ('nothing', 4)),
)


def scenario(ctx: Ctx):
    world = RfWorld(ctx, Options(**OPTIONS))
    return ctx.run(lambda: history(world, judge))


def judge(rec):
    d = rec.definition
    decided = not (rec.faulted or rec.cancelled)
    if decided and rec.action == "goes-on" and rec.meets and not d.delete_if_exists:
        if rec.mutations:
            raise Violation("mutated-while-met", f"{rec.where()} live {rec.live} target {rec.target}")
        expected = rec.expected
        if rec.exc is not None or rec.cls != expected.cls:
            raise Violation("did-not-go-on", f"{rec.where()} expected {expected} {rec.message}")
        if expected.cls == "ok" and not E.same(rec.value, expected.value):
            raise Violation("return-value", f"{rec.where()} {rec.value} expected {expected.value}")
        if expected.cls == "retry" and rec.delay != expected.delay:
            raise Violation("did-not-go-on", f"{rec.where()} delay {rec.delay} expected {expected}")
    if rec.mutations and rec.cls is not None:
        if rec.cls == "ok" or (decided and rec.cls != "retry"):
            raise Violation("mutated-not-retry", f"{rec.where()}")
        if decided and rec.expected is not None and rec.delay != rec.expected.delay:
            raise Violation("retry-delay", f"{rec.where()} {rec.delay} expected {rec.expected.delay}")
        if decided and rec.expected is None:
            delays = {d.expected_update_delay, d.expected_create_delay}
            if rec.delay not in delays:
                raise Violation("retry-delay", f"{rec.where()} {rec.delay} expected {delays}")
    for call, before, after in rec.effects:
        if call.method not in ("POST", "PATCH") or rec.target is None:
            continue
        if call.method == "POST" and (
            rec.created is None or not meets(rec.target, rec.created, rec.created)
        ):
            continue  # create.overlay says otherwise
        if meets(rec.target, after, last_applied(after)) is False:
            raise Violation("not-met-after-mutation", f"{rec.where()} target {rec.target} now {after}")
