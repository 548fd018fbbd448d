"""P03: dynamic execution terminates, respects and uses its parallelism, and leaves nothing behind."""

from simkit import drivers, flows, harness, kernel
from simkit.kernel import Violation
from scenarios import common, p01

ID = "P03"
FOCUS = common.CORE_FOCUS
preload = p01.preload
BARRIER_WAITS = 300


def gen(rng, i, tier):
    mode = rng.choice(["general", "general", "barrier", "fail"])
    flow = flows.gen_flow(rng, par_prob=1.0)
    req = flows.gen_request(rng, flow, overrides_prob=0.1)
    ex = drivers.gen_exec(rng, flow, procs=0.12)
    plan = {"mode": mode, "flow": flow, "req": req, "exec": ex, "sched": common.gen_sched(rng)}
    if mode == "barrier":
        # one wide region; every branch waits for n companions
        n = rng.choice([2, 3, 4])
        w = n * rng.choice([1, 2]) + rng.choice([0, 1])
        plan["exec"] = {"kind": "task", "local": {"t": "sync"}, "grouping": "blocks",
                        "remote": {"t": rng.choice(["threads", "threads", "procs"]), "n": n}}
        if rng.random() < 0.3:
            plan["exec"]["same_executor"] = True
        plan["flow"] = {
            "inputs": {"in1": 3}, "optional": [],
            "nodes": [
                {"name": "pre", "kind": "plain", "deps": ["in1"], "dur": 0},
                {"name": "ex", "kind": "expand", "deps": ["pre"], "width": w, "dur": 0, "gen": True},
                {"name": "blk", "kind": "block", "of": "ex", "deps": ["ex"], "dur": 0},
                {"name": "col", "kind": "collect", "of": "ex", "over": "blk", "deps": [], "dur": 0},
            ],
        }
        plan["req"] = {"final": ["col"], "inputs": {"in1": 3}, "overrides": {}}
        plan["n"] = n
    elif mode == "fail":
        names = [n["name"] for n in flow["nodes"]]
        plan["fail"] = [{"node": rng.choice(names), "nth": rng.choice([None, 0, 1, 2])}
                        for _ in range(rng.choice([1, 1, 2]))]
    if mode != "barrier" and plan["exec"]["kind"] == "task" and rng.random() < 0.25:
        # an executor's resources cannot be had, fail when they are returned, or refuse a task
        plan["efault"] = {"who": rng.choice(["local", "remote"]), "at": rng.choice([0, 0, 1, 3]),
                          "what": rng.choice(["init", "init", "finalize", "submit"])}
    return plan


class ExecutorDown(Exception):
    """An executor's backend does not answer."""


class Spy:
    """Counts lifecycle calls and concurrently running tasks of an executor."""

    def __init__(self, ex, spec, fault=None):
        self.ex, self.spec = ex, spec
        self.inits = self.finals = self.submits = 0
        self.bad = []
        self.fault = fault
        self.limit = spec.get("n") if spec["t"] in ("threads", "procs") else None
        i0, f0, s0 = ex.init, ex.finalize, ex.submit_task

        def down(what):
            if self.fault and self.fault["what"] == what:
                kernel.SIM.count("fault:executor_" + what)
                self.fault = None
                raise ExecutorDown(what)

        def init():
            down("init")
            self.inits += 1
            if self.inits - self.finals != 1:
                self.bad.append("initialised while initialised")
            return i0()

        def finalize():
            self.finals += 1
            if self.inits != self.finals:
                self.bad.append("finalised while not initialised")
            f0()
            down("finalize")

        def submit(task):
            if self.inits - self.finals != 1:
                self.bad.append("task submitted outside init/finalize")
            self.submits += 1
            if self.fault and self.submits > self.fault["at"]:
                down("submit")
            return s0(task)

        ex.init, ex.finalize, ex.submit_task = init, finalize, submit


def eager_pools():
    """CPython's pool can count a worker as idle that is about to take a queued item, and then starts one
    thread less than it could.  That is not Hamilton's, so here every submission starts a thread up to the maximum."""
    from concurrent.futures import ThreadPoolExecutor

    adjust = ThreadPoolExecutor._adjust_thread_count

    def eager(self):
        while self._idle_semaphore.acquire(timeout=0):
            pass
        return adjust(self)

    ThreadPoolExecutor._adjust_thread_count = eager


def run(plan, ctx):
    if plan["mode"] == "barrier":
        eager_pools()
    flow, req = plan["flow"], plan["req"]
    ref = flows.Ref(flow, req)
    state = {"active": 0, "max": 0, "tid": {}}
    probe = flows.Probe(flow, fail=plan.get("fail"))
    limit = None
    e = plan["exec"]
    if e["kind"] == "task" and e["remote"]["t"] in ("threads", "procs"):
        limit = e["remote"]["n"]

    def on_call(name, kwargs):
        n = probe.nodes[name]
        if n["kind"] == "block" and limit is not None:
            if probe.active_by_kind["block"] > limit:
                harness.fail_now("too-parallel",
                                 f"{probe.active_by_kind['block']} tasks at once, maximum {limit}")
        if plan["mode"] == "barrier" and name == "blk":
            sim = kernel.SIM
            state["in"] = state.get("in", 0) + 1
            target = min(plan["n"], flow["nodes"][1]["width"])
            if probe.active_by_kind["block"] >= target:
                state["met"] = True
            for _ in range(BARRIER_WAITS):
                if state.get("met"):
                    break
                sim.sleep(0.01)
            else:
                harness.fail_now("parallelism-unused",
                                 f"{target} ready branches never ran at the same time")

    probe.on_call = on_call
    mod = flows.build_module(flows.source_for(flow), probe)
    common.apply_granularity(ctx)
    spies = []

    def wrap(ex):
        spec = e["remote"] if spies and not e.get("same_executor") else e["local"]
        if e.get("same_executor"):
            spec = e["remote"]
        f = plan.get("efault")
        who = "local" if not spies and not e.get("same_executor") else "remote"
        spies.append(Spy(ex, spec, dict(f) if f and f["who"] == who else None))
        return ex

    dr, info = drivers.build_driver(mod, e, wrap=wrap, config=req.get("config"))

    def body(sim):
        for r in range(3 if plan.get("efault") else 2):
            state.pop("met", None)
            probe.nth.clear()
            probe.raised.clear()
            end = "ok"
            armed = [s.fault for s in spies]
            before = [s.inits for s in spies]
            try:
                out = dr.execute(list(req["final"]), inputs=dict(req["inputs"]),
                                 overrides=dict(req["overrides"]))
            except Exception as exc:
                struck = [s.fault for s in spies] != armed
                if not any(exc is x for x in probe.raised) and not (struck and isinstance(exc, ExecutorDown)):
                    raise
                end = f"failed with {type(exc).__name__}"
            else:
                if [s.fault for s in spies] != armed:
                    raise Violation("failure-swallowed", "an executor failed but execute returned")
                if not flows.same(out, ref.result):
                    raise Violation("wrong-result", f"got {flows.show(out)} expected {flows.show(ref.result)}")
            busy = [k for k, v in probe.active_by_kind.items() if v]
            if busy:
                raise Violation("left-running", f"functions of kind {busy} still running after return")
            live = [t.tid for t in sim.threads[1:] if t.state != "done"]
            if live:
                raise Violation("left-running", f"{len(live)} worker threads alive after return")
            for s, was in zip(spies, before):
                n = s.inits - was
                if s.inits != s.finals or s.bad or (n != 1 and not (n == 0 and "ExecutorDown" in end)):
                    raise Violation("executor-lifecycle",
                                    f"initialised {s.inits} and finalised {s.finals} times after "
                                    f"{r + 1} executions (this one {end}) {s.bad}")

    try:
        ctx.simulate(body)
    except Violation:
        raise
    except Exception as exc:
        raise Violation("unexpected-error", f"{type(exc).__name__}: {exc}")


def shrink(plan):
    if plan.get("efault"):
        yield dict(plan, efault=None)
    if plan["mode"] != "barrier":
        yield from p01.shrink(dict(plan, more=[]))
    if plan.get("fail") and len(plan["fail"]) > 1:
        for f in plan["fail"]:
            yield dict(plan, fail=[f])
