"""Running scenarios on asyncio and trio with full control of what is runnable."""

from __future__ import annotations

import asyncio
import contextlib
import random
import threading

import anyio
import anyio.to_thread
import sniffio


async def settle(rounds=10000):
    """Return once every other task is blocked (on something only the driver provides)."""
    if sniffio.current_async_library() == "trio":
        import trio.testing

        await trio.testing.wait_all_tasks_blocked()
        return
    loop = asyncio.get_running_loop()
    for _ in range(rounds):
        await asyncio.sleep(0)
        if not loop._ready:
            return
    raise RuntimeError("system does not become quiescent")


def run(main, *args, backend="asyncio", seed=None):
    if backend == "trio" and seed is not None:
        import trio._core._run as tr

        tr._r = random.Random(seed)
    return anyio.run(main, *args, backend=backend)


class Gate:
    """An event the driver opens; each wait() consumes one permit."""

    def __init__(self):
        self.permits = 0
        self.waiters = []

    async def wait(self):
        if self.permits:
            self.permits -= 1
            return
        ev = anyio.Event()
        self.waiters.append(ev)
        try:
            await ev.wait()
        except BaseException:
            if ev in self.waiters:
                self.waiters.remove(ev)
            elif ev.is_set():
                self.release()
            raise

    def release(self):
        if self.waiters:
            self.waiters.pop(0).set()
        else:
            self.permits += 1


class Inbox:
    """What the server's receive() hands out, one message at a time."""

    def __init__(self, items=()):
        self.items = list(items)
        self.waiters = []

    def push(self, m):
        self.items.append(m)
        if self.waiters:
            self.waiters.pop(0).set()

    async def get(self):
        while not self.items:
            ev = anyio.Event()
            self.waiters.append(ev)
            try:
                await ev.wait()
            finally:
                if ev in self.waiters:
                    self.waiters.remove(ev)
        return self.items.pop(0)


def drive(coro):
    """Run a coroutine that never really suspends, without an event loop."""
    try:
        coro.send(None)
    except StopIteration as exc:
        return exc.value
    coro.close()
    raise RuntimeError("coroutine suspended")


@contextlib.contextmanager
def no_raise():
    try:
        yield
    except Exception:
        pass


class ThreadGate:
    """A gate worker threads wait at, one permit per wait; waiting counts those blocked."""

    def __init__(self):
        self.cond = threading.Condition()
        self.permits = 0
        self.waiting = 0
        self.open = False

    def wait(self):
        with self.cond:
            self.waiting += 1
            while not (self.permits or self.open):
                self.cond.wait()
            if not self.open:
                self.permits -= 1
            self.waiting -= 1

    def release(self):
        with self.cond:
            self.permits += 1
            self.cond.notify()

    def stuck(self):
        with self.cond:
            return max(0, self.waiting - self.permits) if not self.open else 0

    def throw_open(self):
        with self.cond:
            self.open = True
            self.cond.notify_all()


async def settle_threads(gate=None):
    """Like settle(), but also waits for worker threads not blocked at the gate."""
    lim = anyio.to_thread.current_default_thread_limiter()
    calm = 0
    for n in range(20000):
        await settle()
        if lim.borrowed_tokens == (gate.stuck() if gate else 0):
            calm += 1
            if calm >= 2:
                return
        else:
            calm = 0
            await anyio.sleep(0 if n < 20 else 0.0005)
    raise RuntimeError("threads do not become quiescent")
