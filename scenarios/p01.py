"""P01: a parallel / task-based execution returns what a sequential evaluation returns."""

from simkit import drivers, flows
from simkit.kernel import Violation
from scenarios import common, peers

ID = "P01"
FOCUS = common.CORE_FOCUS
RUNS = {"quick": 3000, "thorough": 60000}


def preload():
    common.preload_core()


def gen(rng, i, tier):
    flow = flows.gen_flow(rng, rich=rng.random() < 0.4)
    if rng.random() < 0.35:
        flows.oddify(rng, flow)
    req = flows.par_overrides(rng, flow, flows.gen_request(rng, flow))
    plan = {
        "flow": flow,
        "req": req,
        "exec": drivers.gen_exec(rng, flow, procs=0.12),
        "more": [vary(rng, flow, req) for _ in range(rng.choice([0, 0, 1, 2]))],
        "sched": common.gen_sched(rng),
        "built": rng.random() < 0.15,
    }
    plan["peer"] = peers.gen_peer(rng, flow, req, plan["exec"])
    return plan


def vary(rng, flow, req):
    """A later request to the same driver: other values, overrides or outputs."""
    r = {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in req.items()}
    if rng.random() < 0.3:
        q = flows.par_overrides(rng, flow, flows.gen_request(rng, flow, config=False))
        r["final"], r["overrides"] = q["final"], q["overrides"]
    exp = {n["name"] for n in flow["nodes"] if n["kind"] == "expand"}
    for d in (r["inputs"], r["overrides"]):
        for k in sorted(d):
            if k not in exp and rng.random() < 0.6:
                d[k] = rng.randrange(2000, 3000)
                if flow.get("odd") and (d is r["overrides"] or k in flow["itypes"]):
                    d[k] = flows.odd_value(rng, d[k])
    return r


def run(plan, ctx):
    flow, req = plan["flow"], plan["req"]
    reqs = [req] + plan["more"]
    probe = flows.Probe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    peer = peers.Peer(plan["peer"], mod.__name__) if plan.get("peer") else None
    common.apply_granularity(ctx)
    dr, info = drivers.build_driver(mod, plan["exec"], config=req.get("config"),
                                    adapters=[drivers.result_builder()] if plan.get("built") else ())

    def body(sim):
        outs = []
        if peer:
            peer.begin()
        for r in reqs:
            outs.append(dr.execute(list(r["final"]), inputs=dict(r["inputs"]),
                                   overrides=dict(r["overrides"])))
        if peer:
            peer.end()
        return outs

    try:
        outs = ctx.simulate(body)
    except Violation:
        raise
    except Exception as e:
        raise Violation("unexpected-error", f"{type(e).__name__}: {e}")
    for r, out in zip(reqs, outs):
        out = drivers.unbuilt(out, plan.get("built"))
        ref = flows.Ref(flow, r)
        if not flows.same(out, ref.result):
            raise Violation("wrong-result", f"got {flows.show(out)} expected {flows.show(ref.result)}")
        if list(out) != list(dict.fromkeys(r["final"])):
            raise Violation("wrong-result-order", f"got {list(out)} expected {r['final']}")


def shrink(plan):
    yield from peers.shrink_peer(plan)
    if plan.get("built"):
        yield dict(plan, built=False)
    if plan.get("more"):
        for k in range(len(plan["more"])):
            yield dict(plan, more=plan["more"][:k] + plan["more"][k + 1:])
        yield dict(plan, req=plan["more"][0], more=plan["more"][1:])
    for fl, rq in flows.shrink_flow(plan["flow"], plan["req"]):
        names = {n["name"] for n in fl["nodes"]}
        gone = {n["name"] for n in plan["flow"]["nodes"]} - names
        more = [dict(r, final=[f for f in r["final"] if f not in gone],
                     overrides={k: v for k, v in r["overrides"].items() if k not in gone})
                for r in plan.get("more", ())]
        if all(r["final"] for r in more):
            yield dict(plan, flow=fl, req=rq, more=more)
    for e in drivers.shrink_exec(plan["exec"]):
        yield dict(plan, exec=e)
    yield from common.shrink_sched(plan)
