"""C16: hot reload is coherent: dependents are re-prepared after every change."""

from __future__ import annotations

import asyncio

from ..cachesim import Sim
from ..core import Ctx, turns
from .. import reload

PROP = "C16"
LEVEL = "exploration"
COUNTS = {"quick": 24000, "thorough": 500000}
RULE = (
    "One scenario: concurrent actors offer new and unchanged versions, delete by name and by "
    "version, delete and re-offer at once, and abandon offers, over up to 9 resources whose "
    "dependency sets form a DAG (or, in some runs, occasionally a refused cycle) and change with "
    "every version; preparers may suspend between any two lookups.  Quiescence is checked, then "
    "every resource is touched again, deleted, and re-offered.  One run in 20 does the same with "
    "real definitions.  Non-trivial: an existing dependency changed."
)
STATE_MEASURE = "distinct (operation, had dependents, in flight, suspended) pairs in sequence"
REAL = ["koreo.cache", "koreo.registry", "asyncio queues and tasks", "real preparers (part 2)"]
STUB = ["harness preparers (part 1)", "event loop selector, clock"]
ASSUMPTIONS = [
    "preparers return (they do not raise); time.monotonic strictly increases between awaits",
]


def scenario(ctx: Ctx):
    if ctx.stream("part").below(20) == 19:
        return reload.scenario(ctx)
    ch = ctx.stream("gen")
    sim = Sim(ctx, ch.int(2, 9), cycles=ch.chance(10))
    sim.suspend_pct = ch.pick([0, 0, 20, 60])
    return ctx.run(lambda: main(ctx, sim))


async def main(ctx, sim):
    ch = sim.ch
    me = asyncio.current_task()
    version = {"n": 0}

    def new_version():
        version["n"] += 1
        return str(version["n"])

    async def actor(no):
        ops = ctx.stream(f"actor{no}")
        last = ""
        for _ in range(ops.int(1, 10)):
            i = ops.below(len(sim.names))
            key = sim.key(i)
            e = sim.entries[key]
            if e.locked:
                await turns(2)
                continue
            kind = ops.weighted(
                [("offer", 8), ("touch", 4), ("same", 2), ("delete", 3), ("replace", 3),
                 ("vdelete", 2), ("abandon", 1), ("rest", 3)]
            )  # fmt: skip
            state = f"{kind}:{bool(has_dependents(sim, key))}:{min(e.flying, 2)}:{sim.suspend_pct > 0}"
            ctx.state(f"{last}>{state}")
            last = state
            if kind != "rest" and has_dependents(sim, key):
                ctx.nontrivial = True
            if kind == "offer":
                await sim.offer(key, new_version(), sim.gen_spec(i, ops), {"sys": version["n"]})
            elif kind == "touch" and e.spec:
                await sim.offer(key, new_version(), {**e.spec, "deps": list(e.spec["deps"]), "gen": bump(sim)})
            elif kind == "same" and e.version and not e.flying:
                await sim.offer_same(key)
            elif kind == "delete":
                await sim.delete(key, how=ops.below(2))
            elif kind == "replace" and e.spec:
                # deleted and offered again straight away
                spec = {**e.spec, "deps": list(e.spec["deps"]), "gen": bump(sim)}
                e.locked = True
                await sim.delete(key)
                await turns(ops.weighted([(0, 5), (1, 1), (2, 1), (3, 1)]))
                e.locked = False
                await sim.offer(key, new_version(), spec)
            elif kind == "vdelete" and e.version:
                if ops.bool() and not e.flying:
                    await sim.delete(key, version=e.version)
                elif not e.flying:
                    await sim.delete(key, version="stale")
            elif kind == "abandon" and not e.flying:
                e.locked = True
                task = asyncio.ensure_future(
                    sim.offer(key, new_version(), sim.gen_spec(i, ops))
                )
                await turns(ops.int(1, 3))
                if e.flying == 1 and not task.done():
                    task.cancel()
                    ctx.fault("offer-cancelled")
                try:
                    await task
                except asyncio.CancelledError:
                    pass
                e.locked = False
            elif kind == "rest":
                await asyncio.sleep(ops.int(0, 20) * 0.01)
            if ops.chance(50):
                await turns(ops.int(1, 4))

    # a starting population, in any order
    for i in ch.shuffle(range(len(sim.names))):
        if ch.chance(75):
            await sim.offer(sim.key(i), new_version(), sim.gen_spec(i, ch))
    if ch.bool():
        await sim.idle()
        sim.check_idle("after the initial offers")
    # actors wait for one another where they work on one resource half of the time
    actors = [asyncio.ensure_future(actor(n)) for n in range(ch.int(1, 4))]
    await asyncio.gather(*actors)
    await sim.idle()
    sim.check_idle("after the actors")

    # every cached entry is still being watched over: touch each in turn
    for i in ch.shuffle(range(len(sim.names))):
        key, e = sim.key(i), sim.entries[sim.key(i)]
        if not e.spec:
            continue
        if ch.chance(30):
            await sim.delete(key)
        else:
            spec = {**e.spec, "deps": list(e.spec["deps"]), "gen": bump(sim)}
            await sim.offer(key, new_version(), spec)
        if ch.chance(60):
            await sim.idle()
            sim.check_idle(f"after touching {key[1]}")
    await sim.idle()
    sim.check_idle("after touching each")

    # nothing is left of what is deleted
    for i in ch.shuffle(range(len(sim.names))):
        if sim.entries[sim.key(i)].version is not None:
            await sim.delete(sim.key(i))
    await sim.idle()
    sim.check_idle("after deleting everything")
    sim.check_no_tasks({me})
    if sim.suspend_pct:
        ctx.fault("slow-preparers")
    ctx.probe("builds", sim.builds)


def has_dependents(sim, key):
    i = sim.names.index(key)
    return [e for e in sim.entries.values() if e.spec and i in e.spec["deps"]]


def bump(sim):
    sim.gens += 1
    return sim.gens
