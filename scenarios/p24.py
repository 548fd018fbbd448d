"""P24: executing on Ray or Dask gives what sequential execution gives, whatever the cluster does."""

from collections import Counter
from concurrent.futures import ThreadPoolExecutor

from simkit import drivers, flows, kernel
from simkit.kernel import Violation
from scenarios import clusterlib, common, p01

ID = "P24"
FOCUS = common.CORE_FOCUS + (common.H + "plugins/h_ray.py", common.H + "plugins/h_dask.py")

MODES = ["ray-graph", "ray-task", "ray-workflow", "dask-delayed", "dask-task"]


def preload():
    clusterlib.install_ray()
    common.preload_core()
    import hamilton.plugins.h_dask  # noqa
    import hamilton.plugins.h_ray  # noqa


def gen(rng, i, tier):
    mode = MODES[i % len(MODES)]
    task = mode.endswith("task")
    flow = flows.gen_flow(rng, par_prob=0.8 if task else 0.0, max_width=4, rich=rng.random() < 0.35,
                          max_plain=8)
    if rng.random() < 0.3:
        flows.oddify(rng, flow, evil=False)
    for n in flow["nodes"]:
        if mode.startswith("ray") and n["kind"] == "plain" and not n.get("fields") \
                and not n.get("loader") and rng.random() < 0.2:
            n["ray"] = {"num_cpus": rng.choice([1, 2])}
            if rng.random() < 0.4:
                n["ray"]["resources"] = {"slot": int(n["name"][1:])}
            n["deco"] = f"@_rayopts(**{n['ray']!r})"
    req = flows.par_overrides(rng, flow, flows.gen_request(rng, flow, overrides_prob=0.4))
    cl = {"n": rng.choice([1, 2, 3, 4]), "lags": [rng.choice([0, 0, 0.01, 0.3]) for _ in range(5)],
          "faults": {}, "lost": []}
    if mode != "dask-delayed" and rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = str(rng.randrange(8))
            cl["faults"].setdefault(k, []).append(rng.choice(["before", "after"]))
        if rng.random() < 0.5:
            cl["lost"] = [rng.randrange(6)]
    plan = {"mode": mode, "flow": flow, "req": req, "cluster": cl, "fail": [], "rounds": rng.choice([1, 2]),
            "sched": common.gen_sched(rng)}
    # the adapter or executor also serves another driver: the same dataflow after some functions were edited
    plan["twin"] = rng.random() < 0.3
    if mode == "dask-delayed":
        plan["dask"] = {"delayed": rng.random() < 0.8, "end": rng.random() < 0.7}
    if mode == "ray-graph":
        plan["down"] = rng.random() < 0.3
        plan["init"] = rng.random() < 0.5
    if mode == "ray-task":
        plan["skip_init"] = rng.random() < 0.4
    if task:
        plan["local_too"] = rng.random() < 0.2
    if rng.random() < 0.35:
        calls = sorted({n for n, _ in flows.Ref(flow, req).calls})
        if calls:
            exc = sorted(set(flows.EXCS) - {"StopIteration", "CancelledError", "Empty"})
            plan["fail"] = [{"node": n, "nth": None, "exc": rng.choice(exc)}
                            for n in rng.sample(calls, min(len(calls), rng.choice([1, 1, 2])))]
    return plan


class SharedProbe(flows.Probe, clusterlib.ByReference):
    pass


def recorder():
    from hamilton.lifecycle import GraphExecutionHook, NodeExecutionHook

    class Rec(clusterlib.ByReference, NodeExecutionHook, GraphExecutionHook):
        def __init__(self):
            self.events, self.runs = [], []

        def run_before_graph_execution(self, *, run_id, **kw):
            self.runs.append(run_id)

        def run_after_graph_execution(self, **kw):
            pass

        def run_before_node_execution(self, *, node_name, node_kwargs, run_id, **kw):
            self.events.append(("before", node_name, None, None, run_id))

        def run_after_node_execution(self, *, node_name, result, error, success, run_id, **kw):
            self.events.append(("after", node_name, success, result if success else error, run_id))

    return Rec()


def run(plan, ctx):
    from hamilton import base, driver

    flow, req, mode = plan["flow"], plan["req"], plan["mode"]
    ref = flows.Ref(flow, req)
    probe = SharedProbe(flow)
    head = ("from hamilton.function_modifiers.metadata import ray_remote_options as _rayopts\n" if mode.startswith("ray") else "")
    mod = flows.build_module(head + flows.source_for(flow), probe)
    flow2 = dict(flow, nodes=[dict(n, ver=1) if n["kind"] in ("plain", "block") and k % 2 == 0 else n
                              for k, n in enumerate(flow["nodes"])])
    ref2, probe2 = flows.Ref(flow2, req), SharedProbe(flow2)
    mod2 = flows.build_module(head + flows.source_for(flow2), probe2)
    common.apply_granularity(ctx)
    rec = recorder() if mode != "dask-delayed" and mode != "ray-workflow" else None

    def body(sim):
        import dask

        cluster = clusterlib.Cluster(plan["cluster"])
        ray = clusterlib.RAY
        ray.cluster = cluster
        bs = [driver.Builder().with_modules(m).with_config(req.get("config") or {}) for m in (mod, mod2)]
        adapters = [rec] if rec else []
        if mode == "ray-graph":
            from hamilton.plugins import h_ray

            adapters.append(h_ray.RayGraphAdapter(base.DictResult(), {} if plan["init"] else None,
                                                  shutdown_ray_on_completion=plan["down"]))
        elif mode == "ray-workflow":
            from hamilton.plugins import h_ray

            adapters.append(h_ray.RayWorkflowGraphAdapter(base.DictResult(), "wf"))
        elif mode == "dask-delayed":
            from hamilton.plugins import h_dask

            adapters.append(h_dask.DaskGraphAdapter(
                None, base.DictResult(), use_delayed=plan["dask"]["delayed"],
                compute_at_end=plan["dask"]["end"]))
        else:
            from hamilton.execution import executors

            if mode == "ray-task":
                from hamilton.plugins import h_ray

                if plan["skip_init"]:
                    ray.init()
                ex = h_ray.RayTaskExecutor(num_cpus=2, skip_init=plan["skip_init"])
            else:
                from hamilton.plugins import h_dask

                ex = h_dask.DaskExecutor(client=clusterlib.DaskClientStub(cluster))
            bs = [b.enable_dynamic_execution(allow_experimental_mode=True) for b in bs]
            if not plan["local_too"]:
                bs = [b.with_remote_executor(ex) for b in bs]
            else:
                class One(executors.ExecutionManager):
                    def get_executor_for_task(self, task):
                        return ex
                bs = [b.with_execution_manager(One([ex])) for b in bs]
        if adapters:
            bs = [b.with_adapters(*adapters) for b in bs]
        dr = bs[0].build()
        dr2 = bs[1].build() if plan.get("twin") else None

        for rnd in range(plan["rounds"] + 1):
            probe.fail = plan["fail"] if rnd < plan["rounds"] else []
            pool = ThreadPoolExecutor(plan["cluster"]["n"])
            dask.config.set(scheduler="threads", pool=pool)
            one(sim, plan, dr, probe, rec, ref, cluster, ray, pool)
            if dr2:
                pool = ThreadPoolExecutor(plan["cluster"]["n"])
                dask.config.set(scheduler="threads", pool=pool)
                one(sim, plan, dr2, probe2, rec, ref2, cluster, ray, pool)

    ctx.simulate(body)


def one(sim, plan, dr, probe, rec, ref, cluster, ray, pool):
    flow, req, mode = plan["flow"], plan["req"], plan["mode"]
    probe.calls.clear()
    probe.raised.clear()
    probe.nth.clear()
    cluster.options.clear()
    if rec:
        rec.events.clear()
        rec.runs.clear()
    reruns0, starts0, stops0, auto0, was_up = cluster.reruns, cluster.inits, cluster.stops, ray.auto, cluster.up
    expect = bool({f["node"] for f in probe.fail} & {n for n, _ in ref.calls})
    st, out = "ok", None
    try:
        out = dr.execute(list(req["final"]), inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
        if mode == "dask-delayed" and plan["dask"]["delayed"] and not plan["dask"]["end"]:
            from dask.delayed import Delayed

            if not isinstance(out, Delayed):
                raise Violation("not-lazy", f"compute_at_end=False returned {type(out)}")
            if probe.calls:
                raise Violation("not-lazy", f"functions ran before the result was computed: {probe.calls[:3]}")
            out = out.compute()
    except Violation:
        raise
    except Exception as e:
        st, out = "err", e
    end = (cluster.inits - starts0, cluster.stops - stops0, cluster.up)
    cluster.drain()
    pool.shutdown()  # what was still running after a failure ends
    reruns = cluster.reruns - reruns0
    if st == "err":
        if not expect:
            raise Violation("unexpected-error", f"{mode}: {type(out).__name__}: {out}")
        cause = getattr(out, "cause", out)
        if not any(type(cause) is type(x) and str(cause) == str(x) for x in probe.raised):
            raise Violation("wrong-error", f"{mode}: execute raised {out!r}; functions raised {[repr(x) for x in probe.raised]}")
    else:
        if expect:
            raise Violation("failure-swallowed", f"{mode}: functions raised {[repr(x) for x in probe.raised]} "
                            f"but execute returned {flows.show(out)}")
        if not flows.same(out, ref.result):
            raise Violation("wrong-result", f"{mode}: got {flows.show(out)} expected {flows.show(ref.result)}")
        if list(out) != list(dict.fromkeys(req["final"])):
            raise Violation("wrong-result-order", f"{mode}: got {list(out)} expected {req['final']}")
    # what ran
    got = Counter(probe.calls)
    for r, k in got.items():
        if r not in ref.calls:
            raise Violation("wrong-call", f"{mode}: {r} was called; expected {[x for x in ref.calls if x[0] == r[0]]}")
    over = sum((got - ref.calls).values())
    if over and not reruns:
        raise Violation("called-twice", f"{mode}: {dict(got - ref.calls)} without any worker failure")
    if st == "ok":
        miss = ref.calls - got
        if miss:
            raise Violation("missing-call", f"{mode}: not called: {list(miss)[:3]}")
    # observers run with the function, wherever that is
    if rec:
        ev = Counter((k, n) for k, n, *_ in rec.events)
        if len(rec.runs) != 1 or {e[-1] for e in rec.events} - set(rec.runs):
            raise Violation("wrong-run-id", f"{mode}: runs {rec.runs}, node events of {sorted({e[-1] for e in rec.events})}")
        for n in {x for x, _ in ref.calls}:
            calls = sum(k for r, k in got.items() if r[0] == n)
            name = n
            if any(m["name"] == n and m.get("loader") for m in flow["nodes"]):
                continue
            if ev["before", name] != calls or ev["after", name] != calls:
                raise Violation("hooks-missed", f"{mode}: {n} ran {calls} times, hooks {ev['before', name]}/{ev['after', name]}")
    # life cycle of the cluster
    if mode == "ray-task":
        want = (0, 0, True) if plan["skip_init"] else (1, 1, False)
        if end != want:
            raise Violation("cluster-lifecycle", f"skip_init={plan['skip_init']}: (starts, stops, up)={end}")
    if mode == "ray-graph":
        if plan["down"] and end[1:] != (1, False):
            raise Violation("cluster-lifecycle", f"shutdown_ray_on_completion: stops={end[1]} up={end[2]}")
        if not plan["down"] and end[1]:
            raise Violation("cluster-lifecycle", "the cluster was shut down")
    if mode in ("ray-graph", "ray-workflow"):
        want = Counter(repr(sorted(m["ray"].items())) for m in flow["nodes"]
                       if m.get("ray") and any(x == m["name"] for x, _ in ref.calls))
        seen = Counter(repr(sorted(o.items())) for o in cluster.options if o)
        if st == "ok" and want != seen:
            raise Violation("ray-options", f"declared {dict(want)} passed {dict(seen)}")


def shrink(plan):
    for p in p01.shrink(dict(plan, more=[], exec={"kind": "default"})):
        p.pop("more", None)
        p.pop("exec", None)
        names = {n["name"] for n in p["flow"]["nodes"]}
        if all(f["node"] in names for f in p["fail"]):
            yield p
    if plan.get("twin"):
        yield dict(plan, twin=False)
    if plan["rounds"] > 1:
        yield dict(plan, rounds=1)
    if plan["fail"]:
        yield dict(plan, fail=plan["fail"][1:])
    cl = plan["cluster"]
    if cl["faults"]:
        for k in cl["faults"]:
            yield dict(plan, cluster=dict(cl, faults={a: b for a, b in cl["faults"].items() if a != k}))
    if cl["lost"]:
        yield dict(plan, cluster=dict(cl, lost=[]))
    if any(cl["lags"]):
        yield dict(plan, cluster=dict(cl, lags=[0]))
