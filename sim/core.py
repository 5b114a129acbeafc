"""Engine: choice streams, simulated clock, virtual-time event loop, run context.

One scenario execution is a pure function of a set of *choice streams* (lists
of ints).  In search mode the ints come from a PRNG seeded by (VERIF_SEED,
property, index); in replay mode they come from a file.  Every decision the
simulator takes - generated program, schedule, latency, fault - is one draw.
Value 0 is always the simplest alternative so that shrinking is meaningful.
"""

from __future__ import annotations

import asyncio
import hashlib
import heapq
import random
import time as _time

REAL_MONOTONIC = _time.monotonic
REAL_TIME = _time.time
wall = _time.perf_counter  # never patched


class Violation(Exception):
    """The property is broken.  `sig` names the class of violation (stable
    under shrinking); `msg` is the human description."""

    def __init__(self, sig: str, msg: str = ""):
        super().__init__(f"{sig}: {msg}")
        self.sig = sig
        self.msg = msg


class HarnessError(Exception):
    """A fault of the machinery, never reported as a violation."""


class Discard(Exception):
    """The generated scenario is outside the property's quantifier."""


class WallHang(BaseException):
    """Raised by SIGALRM: the code under test does not return."""


# --------------------------------------------------------------------------
# choices
# --------------------------------------------------------------------------


class Source:
    """Named choice streams, recorded."""

    def __init__(self, seed: str | None = None, replay: dict | None = None):
        self.seed = seed
        self.replay = replay
        self.rec: dict[str, list[int]] = {}
        self._rng: dict[str, random.Random] = {}

    def draw(self, stream: str, n: int) -> int:
        """An int in [0, n)."""
        rec = self.rec.setdefault(stream, [])
        if n <= 1:
            return 0
        if self.replay is not None:
            values = self.replay.get(stream, ())
            pos = len(rec)
            value = values[pos] if pos < len(values) else 0
            if value >= n:
                value = n - 1
        elif stream == "finding":
            value = 0
        else:
            rng = self._rng.get(stream)
            if rng is None:
                digest = hashlib.sha256(f"{self.seed}/{stream}".encode()).digest()
                rng = self._rng[stream] = random.Random(digest)
            value = rng.randrange(n)
        rec.append(value)
        return value

    def stream(self, name: str) -> "Choices":
        return Choices(self, name)


class Choices:
    def __init__(self, source: Source, name: str):
        self.source = source
        self.name = name

    def below(self, n: int) -> int:
        return self.source.draw(self.name, n)

    def int(self, lo: int, hi: int) -> int:
        return lo + self.source.draw(self.name, hi - lo + 1)

    def chance(self, pct: int) -> bool:
        if pct <= 0:
            return False
        return self.source.draw(self.name, 100) >= 100 - pct

    def bool(self) -> bool:
        return self.source.draw(self.name, 2) == 1

    def pick(self, seq):
        return seq[self.source.draw(self.name, len(seq))]

    def weighted(self, pairs):
        """pairs: [(value, weight)], first is the simplest."""
        total = sum(w for _, w in pairs)
        x = self.source.draw(self.name, total)
        for value, weight in pairs:
            if x < weight:
                return value
            x -= weight
        return pairs[-1][0]

    def shuffle(self, seq):
        out = list(seq)
        for i in range(len(out) - 1, 0, -1):
            # 0 keeps the element where it is
            j = i - self.source.draw(self.name, i + 1)
            out[i], out[j] = out[j], out[i]
        return out

    def subset(self, seq, pct=50):
        return [x for x in seq if self.chance(pct)]


# --------------------------------------------------------------------------
# clock and loop
# --------------------------------------------------------------------------


class SimClock:
    """Strictly increasing simulated clock.  `time.monotonic` and `time.time`
    read it (each read advances it by 1 microsecond, as a real clock would);
    the event loop reads it without advancing."""

    TICK = 1e-6
    EPOCH = 1_700_000_000.0

    def __init__(self, start: float = 1000.0):
        self.t = start
        self.start = start
        self.skew = 0.0

    def monotonic(self) -> float:
        self.t += self.TICK
        return self.t

    def wall(self) -> float:
        self.t += self.TICK
        return self.EPOCH + self.t + self.skew

    def advance(self, dt: float):
        self.t += dt


_current_clock: SimClock | None = None


def _patched_monotonic():
    clock = _current_clock
    return REAL_MONOTONIC() if clock is None else clock.monotonic()


def _patched_time():
    clock = _current_clock
    return REAL_TIME() if clock is None else clock.wall()


def install_clock():
    _time.monotonic = _patched_monotonic
    _time.time = _patched_time


def set_clock(clock: SimClock | None):
    global _current_clock
    _current_clock = clock


class _NullSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        if timeout is None:
            raise SimDeadlock()
        if timeout > 0:
            self.loop.clock.advance(timeout)
        self.loop.iterations += 1
        if self.loop.iterations > self.loop.max_iterations:
            raise SimNoQuiescence()
        return ()

    def close(self):
        pass


class SimDeadlock(BaseException):
    """Nothing is runnable and no timer is pending."""


class SimNoQuiescence(BaseException):
    """The loop exceeded its step budget."""


class SimLoop(asyncio.BaseEventLoop):
    """Virtual-time asyncio loop.  Ready callbacks keep asyncio's guaranteed
    FIFO order; when nothing is ready the clock jumps to the next timer."""

    def __init__(self, clock: SimClock, max_iterations=200_000):
        super().__init__()
        self.clock = clock
        self.iterations = 0
        self.max_iterations = max_iterations
        self._selector = _NullSelector(self)
        self.exception_contexts: list[dict] = []
        self.set_exception_handler(self._on_exception)

    def _on_exception(self, loop, context):
        self.exception_contexts.append(context)

    def time(self):
        return self.clock.t

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def pending_ready(self) -> int:
        return len(self._ready)


async def turns(n: int):
    for _ in range(n):
        await asyncio.sleep(0)


# --------------------------------------------------------------------------
# run context
# --------------------------------------------------------------------------


class Ctx:
    """One scenario execution: choices, clock, trace, statistics."""

    def __init__(self, source: Source, tier: str = "quick"):
        self.source = source
        self.tier = tier
        self.clock = SimClock()
        self.lines: list[str] = []
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.states: set[str] = set()
        self.nontrivial = False
        self.evaluations = 0  # sub-runs within the scenario
        self.loop: SimLoop | None = None
        self.seq = 0

    def stream(self, name: str) -> Choices:
        return self.source.stream(name)

    def log(self, line: str):
        self.lines.append(line)

    def event(self) -> int:
        self.seq += 1
        return self.seq

    def fault(self, kind: str, n: int = 1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name: str, n: int = 1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, key: str):
        self.states.add(key)

    def digest(self) -> str:
        h = hashlib.sha256()
        for line in self.lines:
            h.update(line.encode("utf-8", "surrogatepass"))
            h.update(b"\n")
        return h.hexdigest()[:16]

    def run(self, coro_fn, max_iterations=200_000):
        """Run `coro_fn()` to completion under a fresh virtual-time loop."""
        loop = SimLoop(self.clock, max_iterations=max_iterations)
        self.loop = loop
        set_clock(self.clock)
        coro = coro_fn()
        try:
            return loop.run_until_complete(coro)
        finally:
            try:
                _drain(loop)
            finally:
                set_clock(None)
                loop.close()


def _drain(loop: SimLoop):
    for _ in range(50):
        pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if not pending:
            break
        for task in sorted(pending, key=lambda t: t.get_name()):
            task.cancel()
        loop.max_iterations = loop.iterations + 5000
        try:
            loop.run_until_complete(_gather(pending))
        except BaseException:
            break
    try:
        loop.max_iterations = loop.iterations + 1000
        loop.run_until_complete(loop.shutdown_asyncgens())
    except BaseException:
        pass


async def _gather(tasks):
    await asyncio.wait(tasks, timeout=5)
