"""Building real hamilton drivers from plans."""

import concurrent.futures
import concurrent.futures.process
import pickle

from simkit import flows, kernel


class SimProcessPool(concurrent.futures.ThreadPoolExecutor):
    """Stands in for ProcessPoolExecutor: the "worker processes" are simulated threads that share nothing
    with the caller but what travels serialised (task, adapters and cache included), both ways."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        super().__init__(max_workers, initializer=initializer, initargs=initargs)

    def submit(self, fn, /, *args, **kwargs):
        import cloudpickle

        wire = cloudpickle.dumps((fn, args, kwargs))
        sim = kernel.SIM
        if sim is not None:
            sim.count("process_task")

        def work():
            f, a, k = cloudpickle.loads(wire)
            return cloudpickle.loads(cloudpickle.dumps(f(*a, **k)))

        return super().submit(work)


concurrent.futures.ProcessPoolExecutor = concurrent.futures.process.ProcessPoolExecutor = SimProcessPool


def gen_exec(rng, flow, procs=None):
    procs = flow.get("procs", 0) if procs is None else procs
    has_par = any(n["kind"] == "expand" for n in flow["nodes"])
    if not has_par and rng.random() < 0.3:
        return {"kind": "default"}

    def ex(sync_w):
        r = rng.random()
        if r < sync_w:
            return {"t": "sync"}
        if r < sync_w + (1 - sync_w) * 0.75:
            return {"t": "threads", "n": rng.choice([1, 2, 2, 3, 4])}
        return {"t": "remote", "n": rng.choice([1, 2, 3]), "lag": rng.choice([0, 0.01, 0.2]), "ser": rng.random() < 0.5,
                "seed": rng.randrange(1 << 30)}

    e = {"kind": "task", "local": ex(0.5), "remote": ex(0.12), "grouping": "blocks"}
    if not has_par:
        e["grouping"] = rng.choice(["blocks", "individual", "level", "all"])
    if rng.random() < 0.1 and e["remote"]["t"] != "sync":
        e["same_executor"] = True  # one custom manager sending everything to one executor
    elif procs and not flow.get("odd") and rng.random() < procs:
        e["remote"] = {"t": "procs", "n": rng.choice([1, 2, 3])}
    return e


def make_executor(spec):
    from hamilton.execution import executors

    if spec["t"] == "sync":
        return executors.SynchronousLocalTaskExecutor()
    if spec["t"] == "threads":
        return executors.MultiThreadingExecutor(max_tasks=spec["n"])
    if spec["t"] == "procs":
        return executors.MultiProcessingExecutor(max_tasks=spec["n"])
    if spec["t"] == "remote":
        return make_remote(spec)
    raise AssertionError(spec)


def make_remote(spec):
    """A user-supplied TaskExecutor: a 'cluster' that runs tasks with arbitrary delays, reports
    state lazily, and completes in any order."""
    import random
    import threading

    from hamilton.execution import executors
    from hamilton.execution.state import TaskState

    class Remote(executors.TaskExecutor):
        def __init__(self):
            self.n = spec["n"]
            self.running = 0
            self.rng = random.Random(spec["seed"])
            self.inits = 0
            self.finals = 0
            self.threads = []

        def init(self):
            self.inits += 1

        def finalize(self):
            self.finals += 1
            for t in self.threads:
                t.join()

        def can_submit_task(self):
            return self.running < self.n

        def submit_task(self, task):
            box = {"state": TaskState.QUEUED, "result": None, "error": None}
            lag1 = self.rng.choice([0, spec["lag"]])
            lag2 = self.rng.choice([0, spec["lag"]])
            self.running += 1

            def work():
                sim = kernel.SIM
                if lag1:
                    sim.sleep(lag1)
                box["state"] = TaskState.RUNNING
                try:
                    out = executors.base_execute_task(task)
                except flows.ANY as e:  # noqa
                    box["error"] = e
                    if lag2:
                        sim.sleep(lag2)
                    box["state"] = TaskState.FAILED
                else:
                    if lag2:
                        sim.sleep(lag2)
                    if spec.get("ser"):  # results travel serialised, as from any real cluster
                        out = pickle.loads(pickle.dumps(out))
                    box["result"] = out
                    box["state"] = TaskState.SUCCESSFUL
                finally:
                    self.running -= 1

            t = threading.Thread(target=work)
            self.threads.append(t)
            t.start()

            def get_state():
                return box["state"]

            def get_result():
                if box["error"] is not None and box["state"] == TaskState.FAILED:
                    raise box["error"]
                return box["result"] if box["state"] == TaskState.SUCCESSFUL else None

            return executors.TaskFuture(get_state=get_state, get_result=get_result)

    return Remote()


def result_builder():
    """A user's result builder; `unbuilt` undoes it."""
    from hamilton import base

    class Builder(base.ResultMixin):
        @staticmethod
        def build_result(**outputs):
            return ("built", outputs)

        def output_type(self):
            return tuple

    return Builder()


def unbuilt(out, built):
    if built:
        if not (type(out) is tuple and len(out) == 2 and out[0] == "built"):
            raise kernel.Violation("wrong-result", f"the result builder was not applied: {out!r:.200}")
        return out[1]
    return out


def build_driver(mod, exec_plan, config=None, adapters=(), cache=None, wrap=None, mods=None):
    from hamilton import driver
    from hamilton.execution import executors, grouping

    b = driver.Builder().with_modules(*(mods or [mod])).with_config(config or {})
    info = {}
    if exec_plan["kind"] == "task":
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
        if exec_plan.get("same_executor"):
            ex = make_executor(exec_plan["remote"])
            if wrap:
                ex = wrap(ex)
            info["remote"] = info["local"] = ex

            class OneExecutor(executors.ExecutionManager):
                def get_executor_for_task(self, task):
                    return ex

            b = b.with_execution_manager(OneExecutor([ex]))
        else:
            lo = make_executor(exec_plan["local"])
            re_ = make_executor(exec_plan["remote"])
            if wrap:
                lo, re_ = wrap(lo), wrap(re_)
            info["local"], info["remote"] = lo, re_
            b = b.with_local_executor(lo).with_remote_executor(re_)
        g = exec_plan["grouping"]
        if g == "individual":
            b = b.with_grouping_strategy(grouping.GroupNodesIndividually())
        elif g == "level":
            b = b.with_grouping_strategy(grouping.GroupNodesByLevel())
        elif g == "all":
            b = b.with_grouping_strategy(grouping.GroupNodesAllAsOne())
    if adapters:
        b = b.with_adapters(*adapters)
    if cache is not None:
        b = b.with_cache(**cache)
    return b.build(), info


def shrink_exec(e):
    if e["kind"] != "task":
        return
    if e.get("same_executor"):
        yield {k: v for k, v in e.items() if k != "same_executor"}
    if e["local"]["t"] != "sync":
        yield dict(e, local={"t": "sync"})
    if e["remote"]["t"] in ("remote", "procs"):
        yield dict(e, remote={"t": "threads", "n": 2})
    if e["remote"]["t"] == "threads" and e["remote"]["n"] > 1:
        yield dict(e, remote={"t": "threads", "n": e["remote"]["n"] - 1})
