"""P02: each needed function runs exactly once with its dependencies' values; nothing else runs."""

from collections import Counter

from simkit import drivers, flows
from simkit.kernel import Violation
from scenarios import common, p01, peers

ID = "P02"
FOCUS = common.CORE_FOCUS
preload = p01.preload


def gen(rng, i, tier):
    flow = flows.gen_flow(rng, par_prob=rng.choice([0.5, 0.9]), max_plain=9, rich=rng.random() < 0.5)
    if rng.random() < 0.35:
        flows.oddify(rng, flow)
    plan = {
        "flow": flow,
        "req": flows.par_overrides(rng, flow, flows.gen_request(rng, flow, overrides_prob=0.5)),
        "exec": drivers.gen_exec(rng, flow, procs=0.12),
        "repeat": rng.choice([1, 1, 2]),
        "sched": common.gen_sched(rng),
    }
    plan["peer"] = peers.gen_peer(rng, flow, plan["req"], plan["exec"])
    return plan


def run(plan, ctx):
    flow, req = plan["flow"], plan["req"]
    ref = flows.Ref(flow, req)
    probe = flows.Probe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    peer = peers.Peer(plan["peer"], mod.__name__) if plan.get("peer") else None
    common.apply_granularity(ctx)
    dr, _ = drivers.build_driver(mod, plan["exec"], config=req.get("config"))

    def body(sim):
        if peer:
            peer.begin()
        for r in range(plan["repeat"]):
            probe.calls.clear()
            dr.execute(list(req["final"]), inputs=dict(req["inputs"]),
                       overrides=dict(req["overrides"]))
            check_calls(Counter(probe.calls), ref.calls)
        if peer:
            peer.end()

    try:
        ctx.simulate(body)
    except Violation:
        raise
    except Exception as e:
        raise Violation("unexpected-error", f"{type(e).__name__}: {e}")


def check_calls(got, want, subset=False):
    extra, missing = got - want, want - got
    for rec in extra:
        names = {n for n, _ in want}
        if rec[0] not in names:
            raise Violation("unneeded-call", f"{rec} was called but is not needed")
        if rec in want:
            raise Violation("called-twice", f"{rec} called {got[rec]} times, expected {want[rec]}")
        raise Violation("wrong-arguments", f"{rec} called; expected {[r for r in want if r[0] == rec[0]]}")
    if missing and not subset:
        raise Violation("missing-call", f"not called: {list(missing.items())[:3]}")


shrink = p01.shrink
