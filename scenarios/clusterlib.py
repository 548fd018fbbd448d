"""A simulated cluster: stand-ins for the parts of Ray and of a Dask client that Hamilton's adapters
call.  Functions, arguments and results cross the "wire" serialised; workers are simulated threads that
may be slow, die before or after running a task (the task is then run again, as both systems do), or
lose a result that was already reported (it is then computed again)."""

import concurrent.futures
import itertools
import sys
import threading
import types

import cloudpickle

from simkit import kernel

_registry = {}


def by_id(i):
    return _registry[i]


class ByReference:
    """Objects of the harness stay themselves when they travel."""

    def __reduce__(self):
        _registry[id(self)] = self
        return by_id, (id(self),)


class WorkerCrashed(Exception):
    pass


class ObjectLost(Exception):
    pass


class RayTaskError(Exception):
    """What ray.get raises for a failed task: also an instance of the cause's class."""

    @staticmethod
    def of(cause):
        if isinstance(cause, RayTaskError):
            return cause
        cls = type(cause)

        class Wrapped(RayTaskError, cls):
            def __init__(self, cause):
                self.cause = cause
                self.args = (cause,)

            def __str__(self):
                return f"RayTaskError: {self.cause!r}"

            def __reduce__(self):
                return RayTaskError.of, (self.cause,)

        Wrapped.__name__ = f"RayTaskError({cls.__name__})"
        return Wrapped(cause)


class Cluster:
    """spec: {"n": workers, "lags": [...], "faults": {task number: ["before"|"after", ...]},
    "lost": [task numbers whose result is lost once]}"""

    def __init__(self, spec):
        self.spec = spec
        self.slots = threading.Semaphore(spec["n"])
        self.cond = threading.Condition()
        self.seq = itertools.count()
        self.threads = []
        self.up = False
        self.generation = 0
        self.inits = 0
        self.stops = 0
        self.reruns = 0
        self.options = []

    # -------------------------------------------------------------- life cycle
    def start(self):
        self.up = True
        self.inits += 1

    def stop(self):
        with self.cond:
            self.up = False
            self.generation += 1
            self.cond.notify_all()
        self.stops += 1

    def drain(self):
        for t in self.threads:
            t.join()
        self.threads.clear()

    # -------------------------------------------------------------- tasks
    def submit(self, fn, args, kwargs, resolve=lambda x: x, done=None):
        """-> Box; fn/args/kwargs are serialised now, resolve(x) gives an argument's value later."""
        wire = cloudpickle.dumps((fn, args, kwargs))
        box = Box(self, next(self.seq), self.generation, wire, resolve, done)
        t = threading.Thread(target=box.work)
        self.threads.append(t)
        t.start()
        return box


class Box:
    def __init__(self, cluster, k, generation, wire, resolve, done):
        self.cluster, self.k, self.generation, self.wire, self.resolve = cluster, k, generation, wire, resolve
        self.state = "pending"
        self.value = None
        self.error = None
        self.done_cb = done
        spec = cluster.spec
        self.faults = list(spec["faults"].get(str(k), ()))
        self.lose = k in spec["lost"]
        self.lag = spec["lags"][k % len(spec["lags"])]

    def work(self):
        self._work()
        if self.done_cb:
            self.done_cb(self)

    def _work(self):
        c, sim = self.cluster, kernel.SIM
        if self.lag:
            sim.sleep(self.lag)
        try:
            fn, args, kwargs = cloudpickle.loads(self.wire)
            try:
                args = [self.resolve(a) for a in args]
                kwargs = {k: self.resolve(v) for k, v in kwargs.items()}
            except Exception as e:
                return self._set("error", e)
            while True:
                if c.generation != self.generation:
                    return self._set("error", ObjectLost("cluster is gone"))
                with c.slots:
                    if c.generation != self.generation:
                        return self._set("error", ObjectLost("cluster is gone"))
                    if self.faults and self.faults[0] == "before":
                        self.faults.pop(0)
                        sim.count("fault:worker_death")
                        continue
                    try:
                        # what a worker gets is its own copy every time
                        fn2, a2, k2 = cloudpickle.loads(cloudpickle.dumps((fn, args, kwargs)))
                        out = ("ok", cloudpickle.dumps(fn2(*a2, **k2)))
                    except Exception as e:
                        out = ("error", e)
                    if self.faults:
                        self.faults.pop(0)
                        c.reruns += 1
                        sim.count("fault:worker_death_after")
                        continue
                return self._set(*out)
        except Exception as e:  # not possible to send or receive
            return self._set("error", e)

    def _set(self, state, x):
        with self.cluster.cond:
            if state == "ok":
                self.value = x
            else:
                self.error = x
            self.state = state
            self.cluster.cond.notify_all()

    def done(self):
        return self.state != "pending"

    def get(self):
        """Wait for the result (a fresh copy of it)."""
        with self.cluster.cond:
            while self.state == "pending":
                self.cluster.cond.wait()
        if self.state == "error":
            raise self.error
        if self.lose:
            # the worker holding the result is gone: it is computed again
            self.lose = False
            kernel.SIM.count("fault:result_lost")
            self.cluster.reruns += 1
            with self.cluster.cond:
                self.state = "pending"
            t = threading.Thread(target=self._work)
            self.cluster.threads.append(t)
            t.start()
            return self.get()
        return cloudpickle.loads(self.value)


# ---------------------------------------------------------------------- Ray
class ObjectRef(ByReference):
    def __init__(self, ray, box):
        self.ray, self.box = ray, box

    def future(self):
        f = concurrent.futures.Future()

        def wait():
            try:
                v = self.ray.get(self)
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(v)

        t = threading.Thread(target=wait)
        self.ray.cluster.threads.append(t)
        t.start()
        return f


class DagNode:
    def __init__(self, fn, kwargs, opts):
        self.fn, self.kwargs, self.opts = fn, kwargs, opts


class Remote(ByReference):
    def __init__(self, ray, fn, opts=None):
        self.ray, self.fn, self.opts = ray, fn, opts or {}

    def options(self, **opts):
        return Remote(self.ray, self.fn, {**self.opts, **opts})

    def remote(self, *args, **kwargs):
        ray = self.ray
        if not ray.cluster.up:
            ray.cluster.start()  # Ray starts itself when first used
            ray.auto += 1
        ray.cluster.options.append(self.opts)

        def resolve(v):
            return ray.get(v) if isinstance(v, ObjectRef) else v

        return ObjectRef(ray, ray.cluster.submit(self.fn, args, kwargs, resolve))

    def bind(self, **kwargs):
        return DagNode(self.fn, kwargs, self.opts)


class FakeRay:
    """The functions of the `ray` module that hamilton.plugins.h_ray uses."""

    def __init__(self):
        self.cluster = None
        self.auto = 0
        self.workflows = {}
        self._raylet = types.SimpleNamespace(ObjectRef=ObjectRef)
        self.workflow = types.SimpleNamespace(run=self._run_workflow)

    def init(self, **kw):
        if self.cluster.up and not kw.get("ignore_reinit_error"):
            raise RuntimeError("Maybe you called ray.init twice by accident?")
        self.cluster.start()

    def is_initialized(self):
        return self.cluster.up

    def shutdown(self):
        self.cluster.stop()

    def remote(self, *args, **opts):
        if args:
            return Remote(self, args[0])
        return lambda fn: Remote(self, fn, opts)

    def put(self, value):
        return Remote(self, lambda: value).remote()

    def wait(self, refs, num_returns=1, timeout=None, **kw):
        ready = [r for r in refs if r.box.done()]
        while len(ready) < num_returns and timeout is None:
            kernel.SIM.sleep(0.01)
            ready = [r for r in refs if r.box.done()]
        ready = ready[:num_returns]
        return ready, [r for r in refs if r not in ready]

    def get(self, ref):
        if isinstance(ref, list):
            return [self.get(r) for r in ref]
        if ref.box.generation != self.cluster.generation and not ref.box.done():
            raise ObjectLost("cluster is gone")
        try:
            return ref.box.get()
        except ObjectLost:
            raise
        except Exception as e:
            raise RayTaskError.of(e)

    def _run_workflow(self, dag, workflow_id=None):
        memo = {}

        def go(n):
            if id(n) not in memo:
                kw = {k: go(v) if isinstance(v, DagNode) else v for k, v in n.kwargs.items()}
                memo[id(n)] = Remote(self, n.fn, n.opts).remote(**kw)
            return memo[id(n)]

        self.workflows[workflow_id] = self.workflows.get(workflow_id, 0) + 1
        return self.get(go(dag))


RAY = FakeRay()


def install_ray():
    m = types.ModuleType("ray")
    for k in ("init", "is_initialized", "shutdown", "remote", "get", "put", "wait", "workflow", "_raylet"):
        setattr(m, k, getattr(RAY, k))
    m.ObjectRef = ObjectRef
    m.__path__ = []
    w = types.ModuleType("ray.workflow")
    w.run = RAY._run_workflow
    m.workflow = w
    sys.modules["ray"] = m
    sys.modules["ray.workflow"] = w


# ---------------------------------------------------------------------- Dask
class DaskFuture:
    def __init__(self, key, box):
        self.key, self.box = key, box

    def done(self):
        return self.box.done()

    def cancelled(self):
        return False

    def result(self, timeout=None):
        return self.box.get()

    def exception(self, timeout=None):
        try:
            self.box.get()
        except Exception as e:
            return e


class DaskClientStub:
    """client.submit of dask.distributed: pure functions with equal arguments are one task."""

    def __init__(self, cluster):
        self.cluster = cluster
        self.futures = {}
        cluster.start()

    def submit(self, func, *args, key=None, pure=True, **kwargs):
        from dask.base import tokenize

        if key is None:
            key = func.__name__ + "-" + tokenize(func, kwargs, *args) if pure else object()
        if key not in self.futures:
            self.futures[key] = DaskFuture(key, self.cluster.submit(func, args, kwargs))
        return self.futures[key]
