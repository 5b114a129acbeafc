"""C17: the subscription registry stays consistent, acyclic and delivers exactly."""

from __future__ import annotations

import asyncio

from ..core import Ctx, Violation, turns

PROP = "C17"
LEVEL = "exploration"
COUNTS = {"quick": 120000, "thorough": 2500000}
RULE = (
    "One scenario is a seeded history of register/subscribe/subscribe_only_to/"
    "unsubscribe/notify/kill/deregister operations issued by several actor tasks over "
    "2-6 (or 7-80, starting from a deep graph) resources on the virtual-time loop, with consumer and joiner tasks blocked on "
    "the queues (stalled, cancelled or working for several turns) and bounded (full) "
    "queues as faults. Non-trivial: at least one edge existed and one notification, "
    "kill, deregister, cycle refusal or queue fault happened. Distinct: trace digest."
)
STATE_MEASURE = "distinct (subscription graph, queue liveness) states reached"
REAL = ["koreo.registry", "asyncio.Queue/LifoQueue", "asyncio tasks"]
STUB = ["event loop selector and clock (virtual time)"]
ASSUMPTIONS = [
    "registry operations are synchronous, so interleaving is at operation granularity",
    "asyncio.Queue.shutdown is the 3.13 back-port installed in this interpreter",
    "an unsubscribe of an edge that does not exist may raise, but must change nothing",
]


class TypeA: ...


class TypeB: ...


def scenario(ctx: Ctx):
    ctx.run(lambda: _main(ctx))


class Model:
    def __init__(self):
        self.subs: dict = {}  # subscriber -> set(resources)
        self.queues: dict = {}  # resource -> queue
        self.live: dict = {}  # resource -> bool
        self.pending: dict = {}  # id(queue) -> list of unread event tuples

    def reaches(self, start, target):
        seen, todo = set(), list(start)
        while todo:
            node = todo.pop()
            if node == target:
                return True
            if node in seen:
                continue
            seen.add(node)
            todo.extend(self.subs.get(node, ()))
        return False


async def _main(ctx: Ctx):
    from koreo import registry

    w = ctx.stream("world")
    ops = ctx.stream("ops")
    sched = ctx.stream("sched")

    count = w.weighted([(0, 90), (10, 8), (40, 1)])
    count = w.int(2, 6) if not count else w.int(count - 3, count * 2)
    universe = []
    for i in range(count):
        rtype = TypeB if w.chance(25) else TypeA
        ns = "ns1" if w.chance(15) else None
        # same name under another type or namespace is another resource
        name = f"r{i if not w.chance(15) else max(0, i - 1)}"
        res = registry.Resource(resource_type=rtype, name=name, namespace=ns)
        if res not in universe:
            universe.append(res)
    labels = {r: f"{r.resource_type.__name__[-1]}:{r.name}:{r.namespace or ''}" for r in universe}
    model = Model()
    helpers: list[asyncio.Task] = []
    waiters: dict[int, list[asyncio.Task]] = {}  # id(queue) -> blocked tasks
    got: dict[int, list] = {}
    keep = []  # queues, so ids stay unique

    def check_views(where):
        for s in universe:
            expect = model.subs.get(s, set())
            actual = set(registry.get_subscriptions(s))
            if actual != expect:
                raise Violation(
                    "subscriptions-diverge",
                    f"{where}: {labels[s]} watches {_n(labels, actual)}, expected {_n(labels, expect)}",
                )
            for r in universe:
                forward = r in registry.get_subscriptions(s)
                backward = s in registry.get_subscribers(r)
                if forward != backward:
                    raise Violation(
                        "views-not-inverse",
                        f"{where}: {labels[s]} watches {labels[r]}={forward} but "
                        f"{labels[r]} watched-by {labels[s]}={backward}",
                    )
        foreign = [
            s for r in universe for s in registry.get_subscribers(r) if s not in universe
        ]
        if foreign:
            raise Violation("foreign-subscriber", f"{where}: {foreign}")
        for s in universe:
            if model.reaches(set(registry.get_subscriptions(s)), s):
                raise Violation("cycle", f"{where}: {labels[s]} reaches itself")
        ctx.state(
            "|".join(
                f"{labels[s]}>{','.join(sorted(labels[r] for r in model.subs.get(s, ())))}"
                f"{'!' if model.live.get(s) else ('x' if s in model.queues else '-')}"
                for s in universe
            )
        )

    async def consumer(queue, work):
        """A well-behaved watcher: takes items, finishes each."""
        while True:
            try:
                item = await queue.get()
            except asyncio.QueueShutDown:
                return
            try:
                got.setdefault(id(queue), []).append(item)
                await turns(work)
            finally:
                queue.task_done()
            if isinstance(item, registry.Kill):
                return

    async def joiner(queue):
        await queue.join()

    def queue_items(queue):
        return list(queue._queue)

    def delivered(queue):
        """Everything ever put on the queue that we can still see."""
        return [i for i in got.get(id(queue), [])] + queue_items(queue)

    def expect_delivery(notifier, before, event_time, where):
        """Exactly one event to each live subscriber, none elsewhere."""
        subscribers = {s for s in universe if notifier in model.subs.get(s, ())}
        for res, queue in model.queues.items():
            if res not in before:
                continue
            old_n, full = before[res]
            events = [
                e
                for e in queue_items(queue)
                if isinstance(e, registry.ResourceEvent)
            ]
            new_n = len(events) - old_n
            want = 1 if (res in subscribers and model.live.get(res)) else 0
            if want == 1 and full:
                ctx.probe("notify-full-queue")
                if new_n not in (0, 1):
                    raise Violation("delivery-count", f"{where}: {new_n} to {labels[res]}")
                continue
            if new_n != want:
                raise Violation(
                    "delivery-count",
                    f"{where}: {labels[res]} received {new_n} events, expected {want}",
                )
            if want:
                match = [
                    e
                    for e in events
                    if e.resource == notifier
                    and (event_time is None or e.event_time == event_time)
                ]
                if not match:
                    raise Violation(
                        "delivery-content", f"{where}: wrong event for {labels[res]}: {events}"
                    )

    def before_map():
        return {
            res: (
                sum(isinstance(e, registry.ResourceEvent) for e in queue_items(q)),
                q.full(),
            )
            for res, q in model.queues.items()
        }

    times = [0.0]

    def next_time():
        times[0] += 1.0
        return times[0]

    async def one_op(actor):
        op = ops.weighted(
            [
                ("subscribe", 20), ("register", 18), ("notify", 16), ("only", 14),
                ("deregister", 10), ("kill", 8), ("unsubscribe", 8), ("consume", 8),
                ("join", 5), ("cancel", 2),
            ]
        )  # fmt: skip
        a = ops.pick(universe)
        where = f"[{ctx.event()}] {actor} {op} {labels[a]}"
        if op == "register":
            explicit = ops.chance(20)
            before = before_map()
            was = a in model.queues
            if explicit:
                queue = (
                    asyncio.Queue(maxsize=ops.int(1, 2))
                    if ops.chance(60)
                    else asyncio.LifoQueue()
                )
                returned = registry.register(a, queue=queue)
                if not was and returned is not queue:
                    raise Violation("register-queue", f"{where}: own queue not used")
            else:
                returned = registry.register(a)
            ctx.log(f"{where} explicit={explicit} new={not was}")
            if was:
                if returned is not model.queues[a]:
                    raise Violation("register-queue", f"{where}: registered queue replaced")
                expect_delivery_none(before, where)
            else:
                model.queues[a] = returned
                model.live[a] = True
                keep.append(returned)
                expect_delivery(a, before, None, where)
        elif op == "subscribe":
            b = ops.pick(universe)
            cyc = model.reaches({b}, a)
            ctx.log(f"{where} -> {labels[b]} cyclic={cyc}")
            await expect_cycle(cyc, where, lambda: registry.subscribe(a, b))
            if not cyc:
                model.subs.setdefault(a, set()).add(b)
                ctx.nontrivial = True
        elif op == "only":
            targets = ops.subset(universe, 40)
            if ops.chance(15) and targets:
                targets = targets + [targets[0]]  # redundant
            cyc = model.reaches(set(targets), a)
            ctx.log(f"{where} -> {[labels[t] for t in targets]} cyclic={cyc}")
            seq = tuple(targets) if ops.bool() else list(targets)
            await expect_cycle(cyc, where, lambda: registry.subscribe_only_to(a, seq))
            if not cyc:
                model.subs[a] = set(targets)
        elif op == "unsubscribe":
            b = ops.pick(universe)
            has = b in model.subs.get(a, ())
            ctx.log(f"{where} from {labels[b]} subscribed={has}")
            try:
                registry.unsubscribe(a, b)
            except KeyError:
                if has:
                    raise Violation("unsubscribe-raised", where)
            if has:
                model.subs[a].discard(b)
        elif op == "notify":
            before = before_map()
            t = next_time()
            ctx.log(f"{where} at {t}")
            if any(
                a in model.subs.get(s, ()) and s in model.queues and not model.live[s]
                for s in universe
            ):
                ctx.probe("notify-with-killed-subscriber")
                ctx.fault("killed-subscriber")
            try:
                registry.notify_subscribers(a, t)
            except Exception as err:
                raise Violation("notify-raised", f"{where}: {type(err).__name__}: {err}")
            expect_delivery(a, before, t, where)
        elif op == "kill":
            ctx.log(where)
            before = before_map()
            registry.kill_resource(a)
            if a in model.queues and model.live[a]:
                model.live[a] = False
                ctx.fault("kill")
                try:
                    model.queues[a].put_nowait("probe")
                    raise Violation("kill-left-live", f"{where}: queue still accepts items")
                except (asyncio.QueueShutDown, asyncio.QueueFull):
                    pass
            expect_delivery_none(before, where)
        elif op == "deregister":
            before = before_map()
            t = next_time()
            queue = model.queues.pop(a, None)
            live = model.live.pop(a, None)
            model.subs[a] = set()
            before.pop(a, None)
            ctx.log(f"{where} at {t} registered={queue is not None}")
            try:
                registry.deregister(a, t)
            except Exception as err:
                raise Violation("deregister-raised", f"{where}: {type(err).__name__}: {err}")
            if queue is not None:
                ctx.fault("deregister-live" if live else "deregister-killed")
                if waiters.get(id(queue)):
                    ctx.probe("deregister-with-waiters")
                if not queue.empty():
                    raise Violation("deregister-not-drained", where)
            expect_delivery(a, before, t, where)
            check_views(where)
            if queue is not None:
                # bounded liveness: everything waiting is released within the
                # turns the well-behaved consumers need to finish their item
                for _ in range(12):
                    if all(t.done() for t in waiters.get(id(queue), ())):
                        break
                    await asyncio.sleep(0)
                stuck = [t.get_name() for t in waiters.get(id(queue), ()) if not t.done()]
                if stuck:
                    raise Violation("deregister-waiters-stuck", f"{where}: {stuck}")
                waiters.pop(id(queue), None)
        elif op in ("consume", "join"):
            queue = model.queues.get(a)
            if queue is None:
                return
            work = ops.int(0, 3)
            name = f"{op}-{labels[a]}-{len(helpers)}"
            coro = consumer(queue, work) if op == "consume" else joiner(queue)
            task = asyncio.create_task(coro, name=name)
            helpers.append(task)
            waiters.setdefault(id(queue), []).append(task)
            ctx.log(f"{where} {name} work={work}")
        elif op == "cancel":
            alive = [t for t in helpers if not t.done()]
            if not alive:
                return
            victim = ops.pick(alive)
            ctx.log(f"{where} cancel {victim.get_name()}")
            ctx.fault("consumer-cancelled")
            victim.cancel()
        check_views(where)

    def expect_delivery_none(before, where):
        for res, queue in model.queues.items():
            if res in before:
                n = sum(isinstance(e, registry.ResourceEvent) for e in queue_items(queue))
                if n != before[res][0]:
                    raise Violation("delivery-unexpected", f"{where}: {labels[res]}")

    async def expect_cycle(cyc, where, call):
        try:
            call()
        except registry.SubscriptionCycle:
            ctx.fault("cycle-refused")
            if not cyc:
                raise Violation("cycle-false-refusal", where)
        else:
            if cyc:
                raise Violation("cycle-accepted", where)

    lock = asyncio.Lock()  # an operation and its check are one step

    async def actor(name, n):
        for _ in range(n):
            await turns(sched.int(0, 3))
            async with lock:
                await one_op(name)

    if count > 6:
        # a deep graph to start from, then subscriptions which would close it
        order = w.shuffle(list(universe))
        for i in w.shuffle(list(range(len(order) - 1))):
            registry.subscribe(order[i], order[i + 1])
            model.subs.setdefault(order[i], set()).add(order[i + 1])
            if w.chance(20):
                far = order[w.int(i + 1, len(order) - 1)]
                registry.subscribe(order[i], far)
                model.subs[order[i]].add(far)
        check_views("deep graph")
        for _ in range(w.int(1, 4)):
            i = w.below(len(order) - 1)
            a, b = order[w.int(i + 1, len(order) - 1)], order[i]
            if w.bool():
                a, b = order[-1 - w.below(2)], order[w.below(2)]
            cyc = model.reaches({b}, a)
            where = f"[{ctx.event()}] close {labels[a]} -> {labels[b]} cyclic={cyc}"
            ctx.log(where)
            if w.bool():
                await expect_cycle(cyc, where, lambda: registry.subscribe(a, b))
                if not cyc:
                    model.subs.setdefault(a, set()).add(b)
            else:
                kept = {b, *model.subs.get(a, ())}
                await expect_cycle(cyc, where, lambda: registry.subscribe_only_to(a, list(kept)))
                if not cyc:
                    model.subs[a] = kept
            check_views(where)

    n_actors = sched.int(1, 3)
    tasks = [
        asyncio.create_task(actor(f"a{i}", ops.int(2, 14)), name=f"a{i}")
        for i in range(n_actors)
    ]
    for task in tasks:
        await task
    # final: deregister everything, nothing may stay blocked
    for res in universe:
        registry.deregister(res, next_time())
        model.subs[res] = set()
    model.queues.clear()
    check_views("final")
    for _ in range(20):
        await asyncio.sleep(0)
    stuck = [t.get_name() for t in helpers if not t.done()]
    if stuck:
        raise Violation("deregister-waiters-stuck", f"final: {stuck}")
    bad = [
        t for t in helpers if t.done() and not t.cancelled() and t.exception() is not None
    ]
    if bad:
        raise Violation("helper-failed", f"{bad[0].get_name()}: {bad[0].exception()!r}")
    for task in tasks:
        task.result()


def _n(labels, resources):
    return sorted(labels.get(r, str(r)) for r in resources)
