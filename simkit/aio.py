"""A virtual-time asyncio event loop driven by the simulation kernel."""

import asyncio
import asyncio.base_events
import asyncio.events

from simkit import kernel


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        sim = kernel.SIM
        if timeout is not None and timeout <= 0:
            sim.yield_point()
            return []
        lp = self.loop
        if lp._woken:
            lp._woken = False
            return []
        deadline = None if timeout is None else sim.now + timeout
        sim.block(lp, deadline)
        lp._woken = False
        return []

    def close(self):
        pass


class SimLoop(asyncio.base_events.BaseEventLoop):
    """FIFO ready queue as asyncio guarantees; time is the simulation's; timers that fall due at the
    same instant keep asyncio's order."""

    def __init__(self):
        super().__init__()
        self._selector = _Selector(self)
        self._woken = False
        self._clock_resolution = 1e-9
        self.unhandled = []
        self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))

    def time(self):
        return kernel.SIM.now

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        sim = kernel.SIM
        self._woken = True
        if sim is not None:
            sim.wake(self)

    def _run_once(self):
        sim = kernel.SIM
        if sim is not None:
            sim.yield_point()
        super()._run_once()

    def close(self):
        super().close()


def run(main, drain=True, drain_limit=10_000.0):
    """asyncio.run on a SimLoop inside a simulation.  Returns (result, unhandled, leftovers)."""
    loop = SimLoop()
    asyncio.events.set_event_loop(loop)
    try:
        out = loop.run_until_complete(main)
        left = []
        if drain:
            left = loop.run_until_complete(_drain(loop, drain_limit))
        return out, loop.unhandled, left
    finally:
        asyncio.events.set_event_loop(None)


async def _drain(loop, limit):
    me = asyncio.current_task()
    end = loop.time() + limit
    while True:
        ts = [t for t in asyncio.all_tasks(loop) if t is not me and not getattr(t, "_sim_daemon", False)]
        if not ts:
            return []
        if loop.time() >= end:
            return ts
        await asyncio.wait(ts, timeout=end - loop.time())
