"""P28: run trackers record every run once and as it was, and never change it."""

import json
import os
import threading
from collections import Counter

from simkit import drivers, flows, kernel, values
from simkit.kernel import Violation
from scenarios import common, p04, p20

ID = "P28"
FOCUS = common.CORE_FOCUS + (common.H + "plugins/h_openlineage.py", common.H + "plugins/h_mlflow.py",
                             common.H + "plugins/h_experiments/")
canon, msg = p20.canon, p20.msg


def preload():
    common.preload_core()
    import dbm  # noqa
    import logging

    from hamilton.io import materialization  # noqa
    from hamilton.plugins import h_mlflow, h_openlineage  # noqa
    from hamilton.plugins.h_experiments import hook  # noqa
    import mlflow

    mlflow.client.MlflowClient("file:///tmp/nowhere")
    logging.getLogger("mlflow").setLevel(logging.CRITICAL)


def gen(rng, i, tier):
    plan = p04.gen(rng, i, tier, odd=0)
    flow = plan["flow"]
    if rng.random() < 0.5:
        for n in flow["nodes"]:
            if n["kind"] in ("plain", "block", "collect") and not n.get("fields") and rng.random() < 0.5:
                n["typ"] = rng.choice(["str", "list", "obj", "dict", "optint", "tuple", "frame", "series"])
        plan["req"]["overrides"] = {}
    for f in plan["fail"]:
        if f.get("after") is None:
            f["nth"] = None
    for k in ("local", "remote"):
        if plan["exec"].get(k, {}).get("t") == "remote":
            plan["exec"][k]["ser"] = False
    plan.pop("rounds", None)
    plan["mode"] = rng.choice(["seq", "seq", "conc"])
    pool = ["lineage", "mlflow", "experiment"] if plan["mode"] == "seq" else ["lineage"]
    plan["obs"] = rng.sample(pool, rng.choice([1, 1, len(pool)]))
    plan["lag"] = rng.choice([0, 0, 0.01, 2.0])
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        s = {"kind": rng.choice(["execute", "execute", "materialize", "materialize", "bad"]), "failing": rng.random() < 0.35}
        if s["kind"] == "materialize":
            s["savers"] = [{"of": rng.randrange(8), "bad": rng.random() < 0.25, "rel": rng.random() < 0.5}
                           for _ in range(rng.choice([1, 1, 2]))]
            s["extra"] = rng.random() < 0.7
        if s["kind"] == "bad":
            s["how"] = rng.choice(["nothing", "unknown", "missing"])
            s["failing"] = False
        steps.append(s)
    plan["steps"] = steps
    return plan


class Lineage:
    """The lineage server."""

    def __init__(self, lag):
        self.events, self.lag = [], lag

    def emit(self, event):
        sim = kernel.SIM
        sim.yield_point()
        if self.lag:
            sim.sleep(self.lag)
        self.events.append(event)
        sim.event("emit", event.eventType.value, event.run.runId)


def run(plan, ctx):
    from hamilton.plugins import h_mlflow, h_openlineage
    from hamilton.plugins.h_experiments import hook

    cwd0 = os.getcwd()
    os.chdir(ctx.scratch)
    cwd = os.getcwd()
    flow, req = plan["flow"], plan["req"]
    probe = flows.Probe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    common.apply_granularity(ctx)
    ref = flows.Ref(flow, req)
    want = canon(ref.result)
    rec = p20.make_recorder()
    store = "file://" + ctx.scratch + "/mlflow"
    done = []  # what the callers saw: (kind, error, paths saved)

    def body(sim):
        parts, adapters = {}, [rec]
        for o in plan["obs"]:
            if o == "lineage":
                parts[o] = Lineage(plan["lag"])
                adapters.append(h_openlineage.OpenLineageAdapter(parts[o], "ns", "job"))
            elif o == "mlflow":
                parts[o] = h_mlflow.MLFlowTracker(tracking_uri=store, experiment_name="e")
                adapters.append(parts[o])
            else:
                parts[o] = hook.ExperimentTracker("exp", ctx.scratch + "/experiments")
                adapters.append(parts[o])
        drs = [drivers.build_driver(mod, plan["exec"], config=req.get("config"), adapters=adapters)[0]
               for _ in range(1 if plan["mode"] == "seq" else 2)]
        if plan["mode"] == "seq":
            for k, s in enumerate(plan["steps"]):
                probe.fail = plan["fail"] if s["failing"] else []
                n = len(rec.nodes)
                step(sim, drs[0], s, f"{k}")
                after(sim, parts, k, s, rec.nodes[n:])
        else:
            failing = plan["steps"][0]["failing"]
            probe.fail = plan["fail"] if failing else []
            errs = []

            def client(c):
                try:
                    for k, s in enumerate(plan["steps"]):
                        step(sim, drs[c], dict(s, failing=failing and s["kind"] != "bad"), f"{c}-{k}")
                except Violation as v:
                    errs.append(v)

            ts = [threading.Thread(target=client, args=(c,)) for c in (0, 1)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
        if "lineage" in parts:
            check_lineage(parts["lineage"].events)

    def step(sim, dr, s, tag):
        what = f"{s['kind']} with {plan['obs']}"
        paths, bad, exc, out = [], [], None, None
        kw = dict(inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
        n = len(rec.graphs)
        me = threading.current_thread()
        try:
            if s["kind"] == "execute":
                out = dr.execute(list(req["final"]), **kw)
            else:
                from hamilton.io.materialization import to

                mats = []
                nodes = [f for f in req["final"] if any(n["name"] == f and n["kind"] in ("plain", "field", "collect")
                                                        and not n.get("of_block") for n in flow["nodes"])]
                if not nodes:
                    nodes = [n["name"] for n in flow["nodes"] if n["kind"] in ("plain", "collect")][:1]
                for j, v in enumerate(s.get("savers", ())):
                    node = nodes[v["of"] % len(nodes)]
                    p = ("missing/" if v["bad"] else "") + f"out{tag}{j}.pkl"
                    # (the experiment tracker gives functions a directory of their own)
                    if not v["rel"] or plan["mode"] != "seq" or "experiment" in plan["obs"] and len(plan["obs"]) > 1:
                        p = ctx.scratch + "/" + p
                    (bad if v["bad"] else paths).append(p)
                    mats.append(to.pickle(id=f"saved{j}", dependencies=[node], path=p))
                if s["kind"] == "bad" and s["how"] == "unknown":
                    mats.append(to.pickle(id="saved", dependencies=["no_such_node"], path="x"))
                extra = list(req["final"]) if s.get("extra") or not mats else []
                if s["kind"] == "bad":
                    extra = []
                    if s["how"] == "missing":
                        extra = ["no_such_node"]
                out = dr.materialize(*mats, additional_vars=extra, **kw)
                out = out[1] if extra else None
        except flows.ANY as e:
            exc = e
        sim.event("step", s["kind"], type(exc).__name__ if exc else "ok")
        if s["kind"] == "bad":
            if not isinstance(exc, ValueError):
                raise Violation("wrong-error", f"{what}: impossible request ({s['how']}) gave {type(exc).__name__}: {msg(exc)}")
            done.append(("bad", exc, [], bad))
            return
        if exc is not None:
            mine = any(exc is x for x in probe.raised)
            saver = bool(bad) and isinstance(exc, FileNotFoundError)
            if not (s["failing"] and mine or saver):
                raise Violation("wrong-error" if s["failing"] or bad else "unexpected-error",
                                f"{what}: raised {type(exc).__name__}: {msg(exc)}")
        else:
            if bad or s["failing"] and (s["kind"] == "execute" or s.get("extra")) and p04.must_fail(plan, ref):
                raise Violation("failure-swallowed", f"{what}: returned though something failed")
            if out is not None and canon(out) != want:
                raise Violation("wrong-result", f"{what}: got {values.short(canon(out))} expected {values.short(want)}")
        done.append((s["kind"], exc, paths, bad))

    def after(sim, parts, k, s, nodes):
        """After each of a sequence of executions."""
        kind, exc, paths, bad = done[-1]
        what = f"step {k} ({kind}, {'failed' if exc is not None else 'ok'})"
        if os.getcwd() != cwd:
            now = os.getcwd()
            os.chdir(cwd)
            raise Violation("cwd-changed", f"{what}: working directory is {now}")
        if kind == "bad":
            return
        ran = {n for _, _, n, ok, _ in nodes if ok}
        saved = {f"saved{j}" for j in range(9)} & ran
        if "mlflow" in parts:
            import mlflow

            tr = parts["mlflow"]
            if mlflow.active_run() is not None:
                raise Violation("mlflow-open", f"{what}: its run is still the active one")
            runs = tr.client.search_runs([tr.experiment_id])
            graphs = [g for g in rec.graphs]
            if len(runs) != len(graphs):
                raise Violation("mlflow-runs", f"{what}: {len(runs)} runs for {len(graphs)} executions")
            r = [x for x in runs if x.data.tags.get("hamilton_run_id") == graphs[-1][0]]
            if len(r) != 1:
                raise Violation("mlflow-runs", f"{what}: {len(r)} runs with its id")
            r = r[0]
            if r.info.status != ("FINISHED" if exc is None else "FAILED"):
                raise Violation("mlflow-status", f"{what} is recorded as {r.info.status}")
            if r.data.params != {**{a: str(b) for a, b in (req.get("config") or {}).items()},
                                 **{a: str(b) for a, b in req["inputs"].items()}}:
                raise Violation("mlflow-params", f"{what}: {r.data.params} for inputs {req['inputs']}")
            final = set(req["final"]) if kind == "execute" or s.get("extra") else set()
            ints = {n["name"] for n in flow["nodes"] if n.get("typ") in (None, "int") and n["kind"] in ("plain", "block")
                    and not n.get("fields")} & final & ran
            for n in ints & set(r.data.metrics):
                if r.data.metrics[n] != float(ref.result[n]):
                    raise Violation("mlflow-metric", f"{what}: {n} = {r.data.metrics[n]}, was {ref.result[n]}")
            arts = {f.path for f in tr.client.list_artifacts(r.info.run_id)}
            for n in final & ran:
                if n not in r.data.metrics and not arts & {n + x for x in (".pickle", ".json", ".txt", ".png")}:
                    raise Violation("mlflow-missing", f"{what}: result {n} was not logged; {sorted(arts)}, {r.data.metrics}")
            for n in set(r.data.metrics) - (final & ran):
                raise Violation("mlflow-extra", f"{what}: {n} logged, but it was not computed as a result")
            for n in saved:
                if n not in arts:
                    raise Violation("mlflow-missing", f"{what}: saved file of {n} was not logged")
            left = [f for f in os.listdir(cwd) if f.endswith((".pickle", ".json", ".txt"))]
            if left:
                raise Violation("mlflow-litter", f"{what}: {left} left in the working directory")
        if "experiment" in parts:
            tr = parts["experiment"]
            d = json.loads(tr.cache.read(tr.run_id))
            if d["success"] is not (exc is None):
                raise Violation("experiment-success", f"{what} is recorded with success={d['success']}")
            names = [x["name"] for x in d["inputs"]]
            got = {x["name"]: x["value"] for x in d["inputs"]}
            if len(names) != len(set(names)) or any(n in got and got[n] != v for n, v in req["inputs"].items()):
                raise Violation("experiment-inputs", f"{what}: {d['inputs']} for {req['inputs']}")
            if {x["name"] for x in d["overrides"]} != set(req["overrides"]):
                raise Violation("experiment-overrides", f"{what}: {d['overrides']} for {req['overrides']}")
            if len(d["materialized"]) != len(saved):
                raise Violation("experiment-saved", f"{what}: {len(d['materialized'])} materialized, {len(saved)} savers succeeded")
            for m in d["materialized"]:
                if not os.path.exists(m["path"]):
                    if (len(s["savers"]) > 1 and any(v["rel"] for v in s["savers"])
                            and plan["exec"].get("local", {}).get("t") in ("threads", "remote")):
                        raise Violation("experiment-cwd-race", f"{what}: savers that ran on several threads changed the "
                                        f"working directory of each other; {m['path']} does not exist")
                    raise Violation("experiment-saved", f"{what}: {m['path']} does not exist")

    def check_lineage(events):
        loaders = {n["name"] + ".loader" for n in flow["nodes"] if n.get("loader")}
        by = {}
        for e in events:
            by.setdefault(e.run.runId, []).append(e)
        graphs = dict(map(tuple, rec.graphs))
        if set(by) != set(graphs):
            raise Violation("lineage-runs", f"events of {len(by)} runs, {len(graphs)} executions")
        outcomes = Counter()
        for rid, evs in by.items():
            kinds = [e.eventType.value for e in evs]
            ok, err = graphs[rid]
            end = "COMPLETE" if ok else "FAIL"
            savers = Counter(n for r, _, n, s, _ in rec.nodes if r == rid and s and n.startswith("saved"))
            loads = sum(1 for r, _, n, s, _ in rec.nodes if r == rid and s and n in loaders)
            if kinds != ["START"] + ["RUNNING"] * (sum(savers.values()) + loads) + [end]:
                raise Violation("lineage-events", f"events {kinds}; outcome {end}, {sum(savers.values())} savers succeeded")
            h = evs[0].run.facets["hamilton"]
            if sorted(h.inputs) != sorted(req["inputs"]) or sorted(h.overrides) != sorted(req["overrides"]):
                raise Violation("lineage-inputs", f"inputs {h.inputs} overrides {h.overrides}")
            names = sorted(n for e in evs[1:-1] for o in e.outputs for n in [os.path.basename(o.name)])
            if len(names) != sum(savers.values()) or sum(len(e.inputs or ()) for e in evs[1:-1]) != loads or len(set(names)) != len(names):
                raise Violation("lineage-outputs", f"outputs {names} for {dict(savers)}")
            m = evs[-1].run.facets.get("errorMessage")
            if (m is None) != ok or m is not None and m.message != str(err):
                raise Violation("lineage-error", f"{end}: message {m and m.message!r}, error {err!r}")
            outcomes[end] += 1
        want_o = Counter("COMPLETE" if e is None else "FAIL" for k, e, _, _ in done if k != "bad")
        if outcomes != want_o:
            raise Violation("lineage-outcomes", f"{dict(outcomes)} reported, callers saw {dict(want_o)}")

    try:
        ctx.simulate(body)
    finally:
        os.chdir(cwd0)


def shrink(plan):
    if len(plan["obs"]) > 1:
        for k in range(len(plan["obs"])):
            yield dict(plan, obs=plan["obs"][:k] + plan["obs"][k + 1:])
    if len(plan["steps"]) > 1:
        for k in range(len(plan["steps"])):
            yield dict(plan, steps=plan["steps"][:k] + plan["steps"][k + 1:])
    for k, s in enumerate(plan["steps"]):
        if len(s.get("savers", ())) > 1:
            for j in range(len(s["savers"])):
                yield dict(plan, steps=plan["steps"][:k] + [dict(s, savers=s["savers"][:j] + s["savers"][j + 1:])] + plan["steps"][k + 1:])
    if plan["mode"] != "seq":
        yield dict(plan, mode="seq")
    if plan["lag"]:
        yield dict(plan, lag=0)
    for n in plan["flow"]["nodes"]:
        if n.get("typ"):
            yield dict(plan, flow=dict(plan["flow"], nodes=[dict(x, typ=None) if x is n else x for x in plan["flow"]["nodes"]]))
    for p in p04.shrink(dict(plan, rounds=1)):
        p.pop("rounds", None)
        yield p
