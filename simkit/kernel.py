"""Deterministic simulation kernel.

One simulated run = one forked process.  All Python threads of the code under test are real
threads, but exactly one of them runs at a time: it holds the *baton*.  The baton changes hands
only at *yield points*:

  * every line / call / return event of instrumented code (the code under test and the generated
    dataflow functions), delivered by ``sys.monitoring``;
  * every operation on a lock, condition, semaphore, queue, thread, clock or simulated device.

Which thread gets the baton is decided by a seeded scheduler; each decision that differs from the
default ("keep running"; "lowest runnable thread id" when the current thread blocks) is recorded as
``step -> thread`` so a run can be replayed exactly from that sparse list, and minimised by removing
entries.  Time is virtual.
"""

import _thread
import heapq
import itertools
import os
import random
import sys
import threading
import zlib
import time
import types

REAL_ALLOCATE = _thread.allocate_lock
REAL_START = _thread.start_new_thread
REAL_TIME = time.time
REAL_MONO = time.monotonic
REAL_PERF = time.perf_counter
REAL_SLEEP = time.sleep

TOOL = 3
SIM = None  # the active simulation, if any
EPOCH = 1_700_000_000.0


class Violation(Exception):
    """A property was observed to be broken."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class SimThread:
    __slots__ = ("tid", "go", "state", "deadline", "waiting_on", "name", "run_len", "timed_out")

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.go = REAL_ALLOCATE()
        self.go.acquire()
        self.state = "runnable"
        self.deadline = None
        self.waiting_on = None
        self.timed_out = False


class Sim:
    def __init__(self, sched, max_steps=400_000, fair=400, on_end=None):
        """
        sched: {"seed": int, "p": float} (search)  or {"switches": {step: tid}} (replay)
        on_end: callable(outcome dict) - reports and never returns (os._exit).
        """
        self.mode = "replay" if "switches" in sched else "search"
        if self.mode == "search":
            self.rng = random.Random(sched["seed"])
            self.p = sched.get("p", 0.05)
            self.strategy = sched.get("strategy", "walk")
            self.switch_plan = None
        else:
            self.switch_plan = {int(k): v for k, v in sched["switches"].items()}
            self.p = 0
            self.strategy = "replay"
        self.threads = []
        self.step = 0
        self.max_steps = max_steps
        self.fair = fair
        self.on_end = on_end
        self.now = 0.0  # monotonic virtual time
        self.wall_offset = EPOCH
        self.switches = {}  # recorded non-default decisions
        self.n_switch = 0
        self.trace_hash = 0
        self.crash_at = None
        self.enabled = True  # False inside harness code: no yield points
        self.current = None
        self.next_switch = 0
        self.run_since = 0
        self.last_advance = 0
        self.busy_limit = max(1200, 3 * fair)
        self.deadlock_ok = None
        self.timers = 0
        self.counters = {}
        self.log = []
        self.decisions = 0
        self.prio = {}
        # rendezvous strategy: hold a thread at a chosen place until another one gets there too
        self.rdv = sched.get("rdv") if self.mode == "search" else None
        self.rdv_left = 60_000  # steps of holding left: the strategy must not look like a hang
        self.rdv_sites = {}
        self.rdv_wait = {}  # site -> tid
        self.paused = {}  # tid -> step until which the search does not choose it
        self.burst_until = 0

    # ------------------------------------------------------------------ lifecycle
    def start_main(self):
        global SIM
        t = SimThread(0, "main")
        self.threads.append(t)
        self.current = t
        if self.mode == "search":
            self._draw_next()
        SIM = self

    def stop(self):
        global SIM
        SIM = None

    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    def event(self, *ev):
        """History record (harness)."""
        self.log.append((self.step, self.current.tid, *ev))

    # ------------------------------------------------------------------ scheduling
    def _draw_next(self):
        if self.strategy == "pct":
            # priority-based: rare change points, long runs
            self.next_switch = self.step + 1 + int(self.rng.expovariate(self.p / 8))
        else:
            p = 0.5 if self.step < self.burst_until else self.p
            self.next_switch = self.step + 1 + int(self.rng.expovariate(p))

    def _rdv_target(self, site):
        hit = self.rdv_sites.get(site)
        if hit is None:
            code, pos = site
            key = f"{os.path.basename(code.co_filename)}:{code.co_qualname}:{pos}:{self.rdv['salt']}"
            hit = self.rdv_sites[site] = [zlib.crc32(key.encode()) % self.rdv["k"] == 0, 0]
        return hit

    def _rdv(self, site):
        """The thread to switch to at this place, or None."""
        hit = self._rdv_target(site)
        if not hit[0]:
            return None
        cur = self.current
        w = self.rdv_wait.get(site)
        if w is not None and w != cur.tid and w in self.paused:
            # somebody waits here: release both at the same time
            del self.rdv_wait[site]
            self.rdv_left += max(0, self.paused.pop(w) - self.step)
            self.count("rendezvous")
            self.burst_until = self.step + 30
            self._draw_next()
            t = self.threads[w]
            if t.state == "runnable" and self.rng.random() < 0.5:
                return t
            return None
        if hit[1] >= self.rdv["max"] or self.rdv_left < self.rdv["hold"]:
            return None
        others = [t for t in self.threads if t is not cur and t.state == "runnable" and t.tid not in self.paused]
        if not others:
            return None
        hit[1] += 1
        self.rdv_left -= self.rdv["hold"]
        self.rdv_wait[site] = cur.tid
        self.paused[cur.tid] = self.step + self.rdv["hold"]
        return self.rng.choice(others)

    def _unpause(self):
        for tid, until in list(self.paused.items()):
            if until <= self.step:
                del self.paused[tid]

    def _runnable(self):
        return [t for t in self.threads if t.state == "runnable"]

    def yield_point(self, site=None):
        """Called by the running thread: maybe hand the baton over."""
        self.step += 1
        step = self.step
        if self.crash_at is not None and step >= self.crash_at:
            self.do_crash()
        if step > self.max_steps:
            self._end({"status": "nonterminating", "msg": self._dump()})
        cur = self.current
        if len(self.threads) == 1:
            return
        if step - self.last_advance > self.busy_limit:
            # several threads busy (polling) while others sleep: computation takes (virtual) time
            self.last_advance = step
            best = self._next_timer()
            if best is not None:
                self._fire(best)
        if self.mode == "search":
            if site is not None:
                nxt = self._rdv(site)
                if nxt is not None:
                    self.switches[step] = nxt.tid
                    self.run_since = step
                    self._switch_to(nxt)
                    return
            if step >= self.next_switch:
                self._draw_next()
                cands = self._runnable()
                if self.paused:
                    self._unpause()
                    cands = [t for t in cands if t.tid not in self.paused] or cands
                if len(cands) > 1:
                    nxt = self.rng.choice(cands)
                    if nxt is not cur:
                        self.switches[step] = nxt.tid
                        self.run_since = step
                        self._switch_to(nxt)
                        return
        else:
            tid = self.switch_plan.get(step)
            if tid is not None and tid != cur.tid and tid < len(self.threads):
                nxt = self.threads[tid]
                if nxt.state == "runnable":
                    self.switches[step] = tid
                    self.run_since = step
                    self._switch_to(nxt)
                    return
        if step - self.run_since > self.fair:
            # fairness: a spinning thread cannot starve the others (part of the default schedule)
            self.run_since = step
            n = len(self.threads)
            for k in range(1, n):
                t = self.threads[(cur.tid + k) % n]
                if t.state == "runnable":
                    self._switch_to(t)
                    return
            # alone and busy while others sleep: its computation takes (virtual) time
            best = self._next_timer()
            if best is not None:
                self._fire(best)
                self._switch_to(best)

    def _next_timer(self):
        best = None
        for t in self.threads:
            if t.state == "blocked" and t.deadline is not None:
                if best is None or t.deadline < best.deadline:
                    best = t
        return best

    def _fire(self, t):
        if t.deadline > self.now:
            self.now = t.deadline
        self.timers += 1
        self.last_advance = self.step
        t.state = "runnable"
        t.timed_out = True
        t.deadline = None

    def _switch_to(self, nxt):
        cur = self.current
        self.current = nxt
        self.n_switch += 1
        self.trace_hash = hash((self.trace_hash, self.step, nxt.tid))
        nxt.go.release()
        cur.go.acquire()

    def _pick_blocked(self):
        """Current thread cannot continue: choose who runs next (may advance time)."""
        while True:
            cands = self._runnable()
            if cands:
                break
            # advance virtual time to the earliest deadline
            best = None
            for t in self.threads:
                if t.state == "blocked" and t.deadline is not None:
                    if best is None or t.deadline < best.deadline:
                        best = t
            if best is None:
                self._end({"status": "deadlock", "msg": self._dump()})
            if best.deadline > self.now:
                self.now = best.deadline
            self.timers += 1
            self.last_advance = self.step
            for t in self.threads:
                if t.state == "blocked" and t.deadline is not None and t.deadline <= self.now:
                    t.state = "runnable"
                    t.timed_out = True
                    t.deadline = None
        if len(cands) == 1:
            return cands[0]
        default = cands[0]
        if self.mode == "search":
            if self.paused:
                self._unpause()
                nxt = self.rng.choice([t for t in cands if t.tid not in self.paused] or cands)
            else:
                nxt = self.rng.choice(cands)
            if nxt is not default:
                self.switches[self.step] = nxt.tid
            return nxt
        tid = self.switch_plan.get(self.step)
        if tid is not None:
            for t in cands:
                if t.tid == tid:
                    self.switches[self.step] = tid
                    return t
        return default

    def block(self, waiting_on, deadline=None):
        """Block the current thread; returns True if woken, False if the deadline passed."""
        self.step += 1
        if self.crash_at is not None and self.step >= self.crash_at:
            self.do_crash()
        if self.step > self.max_steps:
            self._end({"status": "nonterminating", "msg": self._dump()})
        cur = self.current
        cur.state = "blocked"
        cur.waiting_on = waiting_on
        cur.deadline = deadline
        cur.timed_out = False
        nxt = self._pick_blocked()
        self.run_since = self.step
        if nxt is not cur:
            self._switch_to(nxt)
        cur.waiting_on = None
        return not cur.timed_out

    def wake(self, waiting_on):
        for t in self.threads:
            if t.state == "blocked" and t.waiting_on is waiting_on:
                t.state = "runnable"
                t.deadline = None
                t.timed_out = False

    def sleep(self, seconds):
        if seconds <= 0:
            self.yield_point()
            return
        self.block(("sleep",), self.now + seconds)

    # ------------------------------------------------------------------ threads
    def spawn(self, fn, args, kwargs=None):
        t = SimThread(len(self.threads), f"t{len(self.threads)}")
        self.threads.append(t)
        ident_box = []

        def boot():
            t.go.acquire()
            try:
                fn(*args, **(kwargs or {}))
            except SystemExit:
                pass
            finally:
                self._thread_done(t)

        ident = REAL_START(boot, ())
        ident_box.append(ident)
        return ident

    def _thread_done(self, t):
        t.state = "done"
        self.step += 1
        ct = threading._active.get(_thread.get_ident())
        lk = getattr(ct, "_tstate_lock", None)
        lk = _SENTINELS.pop(_thread.get_ident(), lk)
        if lk is not None:
            try:
                lk._force_release()
            except RuntimeError:
                pass
        self.wake(("join", t.tid))
        nxt = self._pick_blocked()
        self.current = nxt
        self.run_since = self.step
        self.n_switch += 1
        self.trace_hash = hash((self.trace_hash, self.step, nxt.tid))
        nxt.go.release()

    # ------------------------------------------------------------------ crash
    def do_crash(self):
        """kill -9 of the simulated process: it ends here, buffers and all; only what already
        reached the (scratch) disk or the simulated server survives."""
        self.crash_at = None
        self.count("fault:crash")
        self._end({"status": "crash", "step": self.step})

    # ------------------------------------------------------------------ end
    def _dump(self):
        out = []
        frames = sys._current_frames()
        for t in self.threads:
            out.append(f"{t.tid}:{t.state}:{t.waiting_on!r}:{t.deadline}")
        return "; ".join(out)[:2000]

    def _end(self, outcome):
        self.on_end(outcome)
        os._exit(70)


# ---------------------------------------------------------------------- primitives
class SimLock:
    """threading.Lock replacement; real lock semantics outside a simulation."""

    __slots__ = ("_r", "__weakref__")

    def __init__(self):
        self._r = REAL_ALLOCATE()

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None:
            return self._r.acquire(blocking, timeout)
        sim.yield_point()
        if self._r.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while True:
            ok = sim.block(self, deadline)
            if self._r.acquire(False):
                return True
            if not ok:
                return False

    def release(self):
        self._r.release()
        sim = SIM
        if sim is not None:
            sim.wake(self)
            sim.yield_point()

    def _force_release(self):
        if self._r.locked():
            self._r.release()
        sim = SIM
        if sim is not None:
            sim.wake(self)

    def locked(self):
        return self._r.locked()

    __enter__ = acquire

    def __exit__(self, t, v, tb):
        self.release()

    def _at_fork_reinit(self):
        self._r = REAL_ALLOCATE()

    def __repr__(self):
        return f"<SimLock {'locked' if self._r.locked() else 'unlocked'}>"


_SENTINELS = {}


def _sim_set_sentinel():
    lk = SimLock()
    _SENTINELS[_thread.get_ident()] = lk
    return lk


def _sim_start_new_thread(fn, args, kwargs=None):
    sim = SIM
    if sim is None:
        def boot():
            try:
                fn(*args, **(kwargs or {}))
            finally:
                lk = _SENTINELS.pop(_thread.get_ident(), None)
                if lk is not None:
                    lk._force_release()
        return REAL_START(boot, ())
    ident = sim.spawn(fn, args, kwargs)
    sim.yield_point()
    return ident


def _sim_time():
    sim = SIM
    if sim is None:
        return REAL_TIME()
    sim.now += 1e-6
    return sim.now + sim.wall_offset


def _sim_time_ns():
    return int(_sim_time() * 1e9)


def _sim_mono():
    sim = SIM
    if sim is None:
        return REAL_MONO()
    sim.now += 1e-6
    return sim.now


def _sim_sleep(s):
    sim = SIM
    if sim is None:
        return REAL_SLEEP(s)
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    sim.sleep(s)


_ID_RNG = random.Random(0)


def reseed_ids(seed):
    _ID_RNG.seed(seed)
    random.seed(seed)


def _sim_urandom(n):
    return _ID_RNG.randbytes(n)


_installed = False


def install():
    """Replace the nondeterministic primitives of the standard library.  Must run before the code
    under test (and everything that captures these names) is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    # sets of threads (ThreadPoolExecutor._threads) must not iterate in order of memory addresses
    def thread_hash(self):
        n = self.__dict__.get("_sim_hash")
        if n is None:
            n = self.__dict__["_sim_hash"] = next(_SEQ[0])
        return n

    threading.Thread.__hash__ = thread_hash
    _thread.allocate_lock = SimLock
    _thread.start_new_thread = _sim_start_new_thread
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _sim_start_new_thread
    threading._set_sentinel = _sim_set_sentinel
    threading._active_limbo_lock = threading._PyRLock()
    if hasattr(threading, "_shutdown_locks_lock"):
        threading._shutdown_locks_lock = SimLock()
    time.time = _sim_time
    time.time_ns = _sim_time_ns
    time.monotonic = _sim_mono
    time.perf_counter = _sim_mono
    time.monotonic_ns = lambda: int(_sim_mono() * 1e9)
    time.perf_counter_ns = lambda: int(_sim_mono() * 1e9)
    time.sleep = _sim_sleep
    threading._time = _sim_mono
    import queue

    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _sim_mono
    import uuid

    real_uuid4 = uuid.uuid4

    def sim_uuid4():
        if SIM is None and not _ids_active:
            return real_uuid4()
        return uuid.UUID(bytes=_ID_RNG.randbytes(16), version=4)

    uuid.uuid4 = sim_uuid4
    import concurrent.futures.thread as cft
    import concurrent.futures._base  # noqa

    cft._global_shutdown_lock = SimLock()
    _install_datetime()


_ids_active = False
_SEQ = [itertools.count(1)]


def activate_ids(seed):
    global _ids_active
    _ids_active = True
    _SEQ[0] = itertools.count(1000)
    reseed_ids(seed)


def _install_datetime():
    import datetime as dtm

    real = dtm.datetime

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    class SimDatetime(real, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            if SIM is None:
                return real.now(tz)
            return real.fromtimestamp(_sim_time(), tz)

        @classmethod
        def utcnow(cls):
            if SIM is None:
                return real.now(dtm.timezone.utc).replace(tzinfo=None)
            return real.fromtimestamp(_sim_time(), dtm.timezone.utc).replace(tzinfo=None)

        def __reduce_ex__(self, proto):
            return real.__reduce_ex__(self, proto)

    SimDatetime.__name__ = "datetime"
    SimDatetime.__qualname__ = "datetime"
    SimDatetime.__module__ = "datetime"
    dtm._sim_real_datetime = real
    dtm._sim_datetime = SimDatetime


# ---------------------------------------------------------------------- instrumentation
_E = sys.monitoring.events
LINE_EVENTS = _E.LINE | _E.PY_START
FINE_EVENTS = _E.LINE | _E.PY_START | _E.CALL | _E.JUMP | _E.PY_RETURN

_codes = set()


def _cb(code, pos, *_a):
    sim = SIM
    if sim is not None and sim.enabled:
        if sim.rdv is not None:
            sim.yield_point((code, pos))
        else:
            sim.yield_point()


def init_monitoring():
    sys.monitoring.use_tool_id(TOOL, "simkit")
    # C_RETURN is delivered together with CALL
    for ev in (_E.LINE, _E.PY_START, _E.CALL, _E.JUMP, _E.PY_RETURN, _E.C_RETURN):
        sys.monitoring.register_callback(TOOL, ev, _cb)


def _walk_code(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, out)


def collect_codes(prefixes, exclude=()):
    import gc

    out = set()
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            fn = f.__code__.co_filename
            if fn.startswith(prefixes) and not fn.startswith(exclude):
                _walk_code(f.__code__, out)
    return out


def instrument(codes, fine=False):
    ev = FINE_EVENTS if fine else LINE_EVENTS
    for c in codes:
        sys.monitoring.set_local_events(TOOL, c, ev)


def instrument_functions(fns, fine=False):
    out = set()
    for f in fns:
        _walk_code(f.__code__, out)
    instrument(out, fine)
