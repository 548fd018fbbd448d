"""P06: concurrent executions on one driver (or on drivers sharing modules) are isolated."""

import copy
import threading
from collections import Counter

from simkit import drivers, flows, kernel
from simkit.kernel import Violation
from scenarios import common, p01
from scenarios.p02 import check_calls

ID = "P06"
FOCUS = common.CORE_FOCUS + (common.H + "graph.py", common.H + "node.py", common.H + "graph_types.py")
preload = p01.preload


def gen(rng, i, tier):
    par = rng.random() < 0.5
    flow = flows.gen_flow(rng, par_prob=1.0 if par else 0.0, max_width=3, max_par=1, rich=rng.random() < 0.3)
    if rng.random() < 0.3:
        flows.oddify(rng, flow)
    n = rng.choice([2, 2, 3, 4])
    clients = []
    cfg = None
    for k in range(n):
        req = flows.par_overrides(rng, flow, flows.gen_request(rng, flow, overrides_prob=0.5, config=False))
        flows.fresh_inputs(rng, flow, req["inputs"])
        c = {"req": req, "n": rng.choice([1, 1, 2]),
             "noise": rng.choice([None, None, None, "validate", "list", "upstream", "build"])}
        if rng.random() < 0.3:
            names = [m["name"] for m in flow["nodes"]]
            c["fail"] = rng.choice(names)
        clients.append(c)
    if par or rng.random() < 0.4:
        ex = {"kind": "task", "local": {"t": "sync"}, "remote": {"t": "sync"}, "grouping": "blocks"}
        if not par:
            ex["grouping"] = rng.choice(["blocks", "individual", "level", "all"])
    else:
        ex = {"kind": "default"}
    return {"flow": flow, "clients": clients, "exec": ex,
            "shared": rng.random() < 0.75, "sched": common.gen_sched(rng)}


def run(plan, ctx):
    flow = plan["flow"]
    probe = flows.Probe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    common.apply_granularity(ctx)
    shared = drivers.build_driver(mod, plan["exec"])[0] if plan["shared"] else None
    errs = []

    def body(sim):
        def client(k, c):
            tid = sim.current.tid
            c_fail = c.get("fail")
            if c_fail:
                probe.fail.append({"node": c_fail, "nth": None, "tid": tid})
            try:
                dr = shared or drivers.build_driver(mod, plan["exec"])[0]
                req = c["req"]
                ref = flows.Ref(flow, req)
                for _ in range(c["n"]):
                    mine0 = len(probe.by_tid)
                    inputs, over = dict(req["inputs"]), dict(req["overrides"])
                    final = list(req["final"])
                    noise(dr, mod, c, plan, req)
                    st = "ok"
                    try:
                        out = dr.execute(final, inputs=inputs, overrides=over)
                    except flows.NodeBoom as e:
                        st, out = "err", e
                    except Exception as e:
                        raise Violation("unexpected-error", f"client {k}: {type(e).__name__}: {e}")
                    if inputs != req["inputs"] or over != req["overrides"] or final != req["final"]:
                        raise Violation("arguments-modified", f"client {k}: {inputs} {over} {final}")
                    calls = Counter(r for t, r in probe.by_tid[mine0:] if t == tid)
                    will = bool(c_fail) and any(n == c_fail for n, _ in ref.calls)
                    if st == "err":
                        if not will:
                            raise Violation("foreign-failure", f"client {k} got {out!r}")
                        check_calls(calls, ref.calls, subset=True)
                    else:
                        if will:
                            raise Violation("failure-swallowed", f"client {k} got {flows.show(out)}")
                        if not flows.same(out, ref.result):
                            raise Violation("wrong-result", f"client {k}: got {flows.show(out)} expected {flows.show(ref.result)}")
                        check_calls(calls, ref.calls)
            except Violation as v:
                errs.append(v)
            except Exception as e:
                errs.append(Violation("unexpected-error", f"client {k}: {type(e).__name__}: {e}"))

        ts = [threading.Thread(target=client, args=(k, c)) for k, c in enumerate(plan["clients"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    ctx.simulate(body)
    if errs:
        raise errs[0]


def noise(dr, mod, c, plan, req):
    if c["noise"] == "validate":
        dr.validate_execution(list(req["final"]), inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
    elif c["noise"] == "list":
        dr.list_available_variables()
    elif c["noise"] == "upstream":
        dr.what_is_upstream_of(*[f for f in req["final"] if f not in plan["flow"]["inputs"]])
    elif c["noise"] == "build":
        drivers.build_driver(mod, plan["exec"])


def shrink(plan):
    if len(plan["clients"]) > 1:
        for k in range(len(plan["clients"])):
            yield dict(plan, clients=plan["clients"][:k] + plan["clients"][k + 1:])
    for k, c in enumerate(plan["clients"]):
        def rep(c2):
            cl = list(plan["clients"])
            cl[k] = c2
            return dict(plan, clients=cl)
        if c["n"] > 1:
            yield rep(dict(c, n=1))
        if c["noise"]:
            yield rep(dict(c, noise=None))
        if c.get("fail"):
            yield rep({x: v for x, v in c.items() if x != "fail"})
        if c["req"]["overrides"]:
            yield rep(dict(c, req=dict(c["req"], overrides={})))
        if len(c["req"]["final"]) > 1:
            for f in c["req"]["final"]:
                yield rep(dict(c, req=dict(c["req"], final=[f])))
    yield from common.shrink_sched(plan)
