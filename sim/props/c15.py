"""C15: the cache is keyed by resourceVersion: prepare once, latest wins."""

from __future__ import annotations

import asyncio

from ..cachesim import Sim, ident
from ..core import Ctx, Violation, turns

PROP = "C15"
LEVEL = "exploration"
COUNTS = {"quick": 100000, "thorough": 3000000}
RULE = (
    "One scenario: up to 4 concurrent actors offer versions (new, cached, returning to an old "
    "one), delete by name, by the cached and by a stale version, look up and read system data at "
    "arbitrary moments, over up to 7 resources of 3 types which may share names and depend on "
    "one another; preparations succeed, fail, take simulated time, are overtaken, and are "
    "abandoned.  Non-trivial: an entry was replaced, kept or removed."
)
STATE_MEASURE = "distinct (operation, cached?, failed?, in flight) pairs in sequence"
REAL = ["koreo.cache", "koreo.registry", "asyncio queues and tasks"]
STUB = ["harness preparers", "event loop selector, clock"]
ASSUMPTIONS = [
    "preparers return (they do not raise)",
    "a version offered while the same version is being prepared may be prepared twice",
]


def scenario(ctx: Ctx):
    ch = ctx.stream("gen")
    sim = Sim(ctx, ch.int(1, 7), same_names=ch.bool())
    sim.suspend_pct = ch.pick([0, 0, 30, 70])
    return ctx.run(lambda: main(ctx, sim))


#: versions are opaque: neither numeric order nor length means anything
VERSIONS = ("1", "2", "10", "9", "02", "a", "A", "1.0", "b-3", "999999999999")


async def main(ctx, sim):
    ch = sim.ch
    fresh = {"n": 0}

    def pick_version(ops, e):
        if not e.flying and ops.chance(60):
            v = VERSIONS[ops.below(len(VERSIONS))]
            if v != e.version and v not in e.versions_flying:
                return v
        fresh["n"] += 1
        return f"v{fresh['n']}"

    for e in sim.entries.values():
        e.versions_flying = set()
        e.versions = []  # as they were offered

    async def offer(ops, i, spec, key, e):
        v = pick_version(ops, e)
        if e.version is not None:
            ctx.nontrivial = True
        if e.flying:
            ctx.fault("overtaken-preparation")
        e.versions_flying.add(v)
        e.versions.append(v)
        system = ops.weighted([(None, 2), ({"sys": sim.gens}, 2), ({}, 1)])
        labels = ops.weighted([(None, 4), ({"koreo.dev/active": "false"}, 1), ({"x": "y"}, 1)])
        try:
            await sim.offer(key, v, spec, system, labels)
        finally:
            e.versions_flying.discard(v)

    async def actor(no):
        ops = ctx.stream(f"actor{no}")
        last = ""
        for _ in range(ops.int(1, 14)):
            i = ops.below(len(sim.names))
            key = sim.key(i)
            e = sim.entries[key]
            if e.locked:
                await turns(2)
                continue
            kind = ops.weighted(
                [("offer", 7), ("same", 5), ("read", 5), ("delete", 2), ("vdelete", 2),
                 ("stale", 3), ("revert", 2), ("abandon", 1), ("rest", 2)]
            )  # fmt: skip
            mode = e.spec["mode"] if e.spec else None
            state = f"{kind}:{mode}:{min(e.flying, 2)}"
            ctx.state(f"{last}>{state}")
            last = state
            if kind == "offer":
                await offer(ops, i, sim.gen_spec(i, ops), key, e)
            elif kind == "same" and e.version and not e.flying:
                ctx.nontrivial = True
                await sim.offer_same(key)
            elif kind == "read":
                sim.read(key)
            elif kind == "delete":
                await sim.delete(key, how=ops.below(2))
                if not e.flying:
                    sim.read(key)
            elif kind == "vdelete" and e.version and not e.flying:
                ctx.nontrivial = True
                await sim.delete(key, version=e.version)
                sim.read(key)
            elif kind == "stale":
                # names some version that is not the entry's
                v = VERSIONS[ops.below(len(VERSIONS))]
                if e.flying and ops.chance(50) and e.versions:
                    # while a newer one is being prepared
                    v = e.versions[-1 - ops.below(min(2, len(e.versions)))]
                if v == e.version or v in e.versions_flying:
                    continue
                if e.flying:
                    ctx.fault("stale-delete-while-preparing")
                    e.settled.add(None)
                ctx.nontrivial = e.version is not None or ctx.nontrivial
                from koreo.cache import get_resource_from_cache

                held = get_resource_from_cache(*key)
                await sim.delete(key, version=v)
                if get_resource_from_cache(*key) is not held and not e.flying:
                    raise Violation("stale-delete", f"{key} v{e.version} by {v}")
            elif kind == "revert" and e.version and not e.flying:
                # a newer version is being prepared when the cached one is
                # offered once more: the cached one is the most recent offer
                await revert(ops, i, key, e)
            elif kind == "abandon" and not e.flying:
                await abandon(ops, i, key, e)
            elif kind == "rest":
                await asyncio.sleep(ops.int(0, 20) * 0.01)
            if ops.chance(50):
                await turns(ops.int(1, 4))

    async def revert(ops, i, key, e):
        e.locked = True
        held = (e.version, e.gen, e.spec, e.system)
        v = pick_version(ops, e)
        e.versions_flying.add(v)
        task = asyncio.ensure_future(sim.offer(key, v, sim.gen_spec(i, ops)))
        await turns(ops.int(1, 3))
        if not task.done() and e.version == v:
            ctx.fault("reverted-preparation")
            before = len(sim.started)
            e.version, e.gen, e.spec, e.system = held
            from koreo.cache import prepare_and_cache

            out = await prepare_and_cache(
                resource_class=key[0],
                preparer=sim.preparer(key),
                metadata={"name": key[1], "resourceVersion": held[0]},
                spec={"gen": "decoy", "deps": [], "mode": "ok", "follow": False},
            )
            me = asyncio.current_task()
            if [n for n, k, t in sim.started[before:] if t is me and k == key]:
                raise Violation("prepared-again", f"{key} v{held[0]}")
            if ident(out)[1] != held[1]:
                raise Violation("cached-result", f"{key} v{held[0]}: {out}")
        try:
            await task
        finally:
            e.versions_flying.discard(v)
            e.locked = False
        sim.read(key)

    async def abandon(ops, i, key, e):
        e.locked = True
        v = pick_version(ops, e)
        task = asyncio.ensure_future(sim.offer(key, v, sim.gen_spec(i, ops)))
        await turns(ops.int(1, 3))
        if e.flying == 1 and not task.done():
            task.cancel()
            ctx.fault("offer-cancelled")
        try:
            await task
        except asyncio.CancelledError:
            pass
        e.locked = False

    actors = [asyncio.ensure_future(actor(n)) for n in range(ch.int(1, 4))]
    try:
        await asyncio.gather(*actors)
    finally:
        for task in actors:
            task.cancel()
    await sim.idle()
    for key, e in sim.entries.items():
        sim.read(key)
        if getattr(sim, "later", None):
            raise sim.later
        if e.version is not None:
            await sim.offer_same(key)
    if sim.suspend_pct:
        ctx.fault("slow-preparers")
    ctx.probe("builds", sim.builds)
