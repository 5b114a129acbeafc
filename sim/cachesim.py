"""Concurrent actors offering, deleting and reading resources of the real cache.

Preparers belong to the harness: each preparation gets a unique build number,
reads its dependencies through the public lookup (possibly suspending before,
between and after), and reports exactly what it read.  The model keeps what was
offered and deleted; at quiescence every cached entry must have been built from
the builds that are cached now.
"""

from __future__ import annotations

import asyncio
import copy

from .core import Ctx, Violation, turns


class TypeA: ...


class TypeB: ...


class TypeC: ...


TYPES = (TypeA, TypeB, TypeC)


class Build:
    """A prepared value."""

    def __init__(self, number, name, gen, saw):
        self.number, self.name, self.gen, self.saw = number, name, gen, saw

    def __repr__(self):
        return f"<build {self.number} {self.name} gen {self.gen} saw {self.saw}>"


class Entry:
    """Model of one name."""

    def __init__(self):
        self.version = None  # of the latest offer, None: absent
        self.gen = None
        self.spec = None
        self.system = None
        self.locked = False  # an offer is about to be abandoned
        self.flying = 0  # offers being prepared
        self.refused = False  # its subscriptions closed a cycle
        self.settled: set = {None}  # gens a lookup may return while in flight


class Sim:
    def __init__(self, ctx: Ctx, names: int, cycles=False, same_names=False):
        self.ctx = ctx
        self.ch = ctx.stream("gen")
        # one name may be used by several types
        self.names = [(TYPES[i % 3], f"r{i // 3 if same_names else i}") for i in range(names)]
        self.entries = {n: Entry() for n in self.names}
        self.cycles = cycles
        self.builds = 0
        self.gens = 0
        self.started: list = []  # (build, key, task)
        self.suspend = ctx.stream("suspend")
        self.suspend_pct = 0
        self.dead: dict = {}  # key -> deleted and not offered since
        self.mine: set = set()

    def key(self, i):
        return self.names[i]

    # -- preparers ------------------------------------------------------------

    def preparer(self, key):
        from koreo.cache import get_resource_from_cache
        from koreo.registry import Resource
        from koreo.result import PermFail, Retry

        async def prepare(cache_key, spec):
            self.builds += 1
            number = self.builds
            task = asyncio.current_task()
            self.started.append((number, key, task))
            if cache_key != key[1]:
                raise Violation("wrong-name", f"{cache_key} prepared for {key}")
            if key in self.dead and task not in self.mine:
                raise_later(self, Violation("prepared-after-delete", f"{key} build {number}"))
            self.ctx.log(f"{self.now()} build {number} {key[1]} gen {spec['gen']} starts")
            await self.pause()
            saw, lacking = {}, False
            deps = list(spec["deps"])
            i = 0
            while i < len(deps):
                dep = self.names[deps[i]]
                value = get_resource_from_cache(dep[0], dep[1])
                saw[dep] = ident(value)
                lacking = lacking or not isinstance(value, Build)
                if isinstance(value, Build) and spec["follow"]:
                    # dependencies that depend on a dependency's state
                    for extra in value.saw:
                        n = self.names.index(extra)
                        if n not in deps and (value.gen + n) % 3 == 0:
                            deps.append(n)
                i += 1
                if i < len(deps):
                    await self.pause()
            await self.pause()
            gen = spec["gen"]
            watched = [Resource(resource_type=self.names[d][0], name=self.names[d][1]) for d in deps]
            mode = spec["mode"]
            if mode == "needs":
                # what it depends on has to be there
                mode = ("permfail", "retry")[number % 2] if lacking else "ok"
            spec["deps"].clear()  # a preparer may scribble on what it was given
            spec["gen"] = "scribbled"
            self.ctx.log(f"{self.now()} build {number} {key[1]} done")
            if mode == "permfail":
                return PermFail(message=f"build {number} gen {gen}")
            if mode == "retry":
                return Retry(message=f"build {number} gen {gen}", delay=5)
            return Build(number, key, gen, saw), (watched or None)

        return prepare

    def now(self):
        return f"{self.ctx.clock.t - self.ctx.clock.start:.4f}"

    async def pause(self):
        if self.suspend_pct and self.suspend.chance(self.suspend_pct):
            kind = self.suspend.below(3)
            if kind == 0:
                await turns(self.suspend.int(1, 4))
            else:
                await asyncio.sleep(self.suspend.int(0, 12) * 0.01)

    # -- operations -------------------------------------------------------------

    def gen_spec(self, i, ch):
        self.gens += 1
        pool = list(range(i)) if not (self.cycles and ch.chance(10)) else list(range(len(self.names)))
        deps = [d for d in ch.subset(pool, 45) if d != i]
        mode = ch.weighted([("ok", 10), ("permfail", 1), ("retry", 1), ("needs", 2)])
        return {"gen": self.gens, "deps": deps, "mode": mode, "follow": ch.chance(30) and not self.cycles}

    async def offer(self, key, version, spec, system=None, labels=None):
        """A new version."""
        from koreo.cache import get_resource_from_cache, prepare_and_cache
        from koreo.registry import SubscriptionCycle

        e = self.entries[key]
        task = asyncio.current_task()
        self.mine.add(task)
        self.dead.pop(key, None)
        previous = (e.version, e.gen, e.spec, e.system)
        e.version, e.gen, e.spec, e.system = version, spec["gen"], spec, system
        e.flying += 1
        e.settled.add(spec["gen"])
        given = copy.deepcopy(spec)
        before = len(self.started)
        self.ctx.log(f"{self.now()} offer {key[1]} v{version} {spec}")
        metadata = {"name": key[1], "resourceVersion": version}
        if labels:
            metadata["labels"] = labels
        try:
            out = await prepare_and_cache(
                resource_class=key[0],
                preparer=self.preparer(key),
                metadata=metadata,
                spec=spec,
                _system_data=system,
            )
        except SubscriptionCycle:
            e.refused = True
            self.ctx.probe("refused-cycle")
            out = None
        except asyncio.CancelledError:
            # never completed: as if it had not been offered
            e.version, e.gen, e.spec, e.system = previous
            e.flying -= 1
            self.settle(e)
            raise
        else:
            if e.version == version:
                e.refused = False
        e.flying -= 1
        self.settle(e)
        if spec != given:
            raise Violation("spec-modified", f"{given} became {spec}")
        mine = [n for n, k, t in self.started[before:] if t is task and k == key]
        if len(mine) != 1:
            raise Violation("prepare-count", f"{key} v{version} prepared {len(mine)} times")
        if out is not None and ident(out)[1] != spec["gen"]:
            raise Violation("offer-result", f"{key} v{version}: {out}")
        if out is not None and e.version == version and not e.flying and not e.locked:
            value = get_resource_from_cache(*key)
            if value is not out and [n for n, k, t in self.started if k == key][-1] == mine[0]:
                raise Violation("lookup-after-offer", f"{key} v{version} gave {out}, cached {value}")
        return out

    def settle(self, e):
        if not e.flying:
            e.settled = {e.gen if e.version is not None else None}

    async def offer_same(self, key):
        """The version that is cached already."""
        from koreo.cache import get_resource_from_cache, prepare_and_cache

        e = self.entries[key]
        task = asyncio.current_task()
        self.mine.add(task)
        before = len(self.started)
        held = get_resource_from_cache(*key)
        self.ctx.log(f"{self.now()} offer {key[1]} v{e.version} again")
        decoy = {"gen": "decoy", "deps": [], "mode": "ok", "follow": False}
        out = await prepare_and_cache(
            resource_class=key[0],
            preparer=self.preparer(key),
            metadata={"name": key[1], "resourceVersion": e.version},
            spec=decoy,
        )
        mine = [n for n, k, t in self.started[before:] if t is task and k == key]
        if mine:
            raise Violation("prepared-again", f"{key} v{e.version}")
        if out is not held:
            raise Violation("cached-result", f"{out} is not {held}")

    async def delete(self, key, version=None, how=0):
        from koreo.cache import delete_from_cache, delete_resource_from_cache

        e = self.entries[key]
        stale = version is not None and version != e.version
        self.ctx.log(f"{self.now()} delete {key[1]} version={version} stale={stale}")
        if not stale:
            e.version = e.gen = e.spec = e.system = None
            e.refused = False
            e.settled.add(None)
            self.dead[key] = True
        if version is None and how:
            await delete_resource_from_cache(
                resource_class=key[0],
                metadata={"name": key[1], "resourceVersion": "x"},
            )
        else:
            await delete_from_cache(resource_class=key[0], cache_key=key[1], version=version)
        if not e.flying:
            self.settle(e)

    def read(self, key):
        from koreo.cache import get_resource_from_cache, get_resource_system_data_from_cache

        e = self.entries[key]
        value = get_resource_from_cache(*key)
        gen = ident(value)[1] if value is not None else None
        if gen not in e.settled:
            raise Violation("lookup", f"{key} gives {value}, expected gen {e.settled}")
        if e.flying:
            return
        data = get_resource_system_data_from_cache(*key)
        if (data is None) != (e.version is None):
            raise Violation("system-data", f"{key}: {data}")
        if data is None:
            return
        if data.resource_version != e.version or data.resource is not value:
            raise Violation("system-data", f"{key}: {data}, expected version {e.version}")
        if data.spec != e.spec or data.system_data != e.system:
            raise Violation("system-data", f"{key}: {data}, expected {e.spec} {e.system}")

    # -- quiescence ---------------------------------------------------------------

    async def idle(self):
        # longer than any suspension; a chain of re-preparations restarts it
        count = -1
        while count != len(self.started):
            count = len(self.started)
            await asyncio.sleep(30)

    def check_idle(self, where):
        from koreo import registry
        from koreo.cache import get_resource_from_cache

        if getattr(self, "later", None):
            raise self.later
        for key, e in self.entries.items():
            self.read(key)
            value = get_resource_from_cache(*key)
            res = registry.Resource(resource_type=key[0], name=key[1])
            subs = {(r.resource_type, r.name) for r in registry.get_subscriptions(res)}
            if value is None:
                if subs:
                    raise Violation("deleted-still-watching", f"{where}: {key} watches {subs}")
                continue
            if not isinstance(value, Build) or e.refused:
                continue
            if subs != set(value.saw):
                raise Violation("subscriptions", f"{where}: {key} watches {subs}, used {value.saw}")
            for dep, saw in value.saw.items():
                now = ident(get_resource_from_cache(*dep))
                if now != saw:
                    raise Violation(
                        "stale-entry", f"{where}: {value} used {dep[1]} {saw}, cached is {now}"
                    )
                back = registry.get_subscribers(
                    registry.Resource(resource_type=dep[0], name=dep[1])
                )
                if res not in back:
                    raise Violation("not-watched", f"{where}: {key} is not watching {dep}")

    def check_no_tasks(self, allowed):
        if any(e.version is not None for e in self.entries.values()):
            return
        left = [
            t.get_name() for t in asyncio.all_tasks() if not t.done() and t not in allowed
        ]
        if left:
            raise Violation("watcher-left-behind", f"{left}")


def ident(value):
    """(build number, generation) of a prepared or failed value."""
    if value is None:
        return (None, None)
    if isinstance(value, Build):
        return (value.number, value.gen)
    words = value.message.split()
    return (int(words[1]), int(words[3]))


def raise_later(sim, violation):
    """Preparers run inside the code under test, which may contain exceptions."""
    if not getattr(sim, "later", None):
        sim.later = violation
