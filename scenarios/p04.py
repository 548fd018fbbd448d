"""P04: a failing function surfaces as that failure and poisons nothing."""

from collections import Counter

from simkit import drivers, flows
from simkit.kernel import Violation
from scenarios import common, p01
from scenarios.p02 import check_calls

ID = "P04"
FOCUS = common.CORE_FOCUS
preload = p01.preload


def gen(rng, i, tier, rich=True, odd=0.3, evil=True):
    flow = flows.gen_flow(rng, par_prob=0.85, rich=rich and rng.random() < 0.3)
    if rng.random() < odd:
        flows.oddify(rng, flow, evil)
    req = flows.par_overrides(rng, flow, flows.gen_request(rng, flow, overrides_prob=0.2))
    calls = Counter(n for n, _ in flows.Ref(flow, req).calls.elements())
    fail = []
    pool = list(calls) if calls and rng.random() < 0.9 else [n["name"] for n in flow["nodes"] if n["kind"] != "field"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        name = rng.choice(sorted(pool))
        kind = next(n for n in flow["nodes"] if n["name"] == name)
        f = {"node": name, "exc": rng.choice(sorted(flows.EXCS)) if rng.random() < 0.6 else "NodeBoom"}
        if f["exc"] == "StopIteration" and kind["kind"] == "expand":
            f["exc"] = "KeyError"  # inside a generator Python itself turns it into a RuntimeError
        r = rng.random()
        if kind["kind"] == "expand" and kind.get("gen") and r < 0.5:
            f["after"] = rng.randrange(0, 4)
        elif r < 0.6 and calls[name] > 1:
            f["nth"] = rng.randrange(calls[name])
        else:
            f["nth"] = None
        if rng.random() < 0.1:
            f["exc"] = rng.choice(sorted(flows.INTERRUPTS))
        fail.append(f)
    return {"flow": flow, "req": req, "exec": drivers.gen_exec(rng, flow), "fail": fail,
            "rounds": rng.choice([1, 2]), "sched": common.gen_sched(rng)}


def must_fail(plan, ref):
    cnt = Counter(n for n, _ in ref.calls.elements())
    by = {n["name"]: n for n in plan["flow"]["nodes"]}
    for f in plan["fail"]:
        c = cnt[f["node"]]
        if not c:
            continue
        if f.get("after") is not None:
            if f["after"] <= by[f["node"]]["width"]:
                return True
        elif f["nth"] is None or f["nth"] < c:
            return True
    return False


def run(plan, ctx):
    flow, req = plan["flow"], plan["req"]
    ref = flows.Ref(flow, req)
    probe = flows.Probe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    common.apply_granularity(ctx)
    dr, _ = drivers.build_driver(mod, plan["exec"], config=req.get("config"))
    expect = must_fail(plan, ref)

    def once():
        probe.calls.clear()
        probe.raised.clear()
        probe.nth.clear()
        try:
            return "ok", dr.execute(list(req["final"]), inputs=dict(req["inputs"]),
                                    overrides=dict(req["overrides"]))
        except flows.ANY as e:
            return "err", e

    def body(sim):
        for _ in range(plan["rounds"]):
            probe.fail = plan["fail"]
            st, val = once()
            if st == "ok":
                if expect:
                    raise Violation("failure-swallowed", f"a function raised "
                                    f"{[repr(x) for x in probe.raised]} but execute returned {flows.show(val)}")
                if not flows.same(val, ref.result):
                    raise Violation("wrong-result", f"got {flows.show(val)} expected {flows.show(ref.result)}")
            else:
                if not any(val is x for x in probe.raised):
                    raise Violation("wrong-error", f"execute raised {val!r}; functions raised "
                                    f"{[repr(x) for x in probe.raised]}")
            check_calls(Counter(probe.calls), ref.calls, subset=True)
            probe.fail = []
            st, val = once()
            if st != "ok":
                raise Violation("driver-broken-after-failure", f"{type(val).__name__}: {val}")
            if not flows.same(val, ref.result):
                raise Violation("wrong-result-after-failure", f"got {flows.show(val)} expected {flows.show(ref.result)}")
            check_calls(Counter(probe.calls), ref.calls)

    ctx.simulate(body)


def shrink(plan):
    for p in p01.shrink(dict(plan, more=[])):
        p.pop("more", None)
        names = {n["name"] for n in p["flow"]["nodes"]}
        if all(f["node"] in names for f in p["fail"]):
            yield p
    if len(plan["fail"]) > 1:
        for f in plan["fail"]:
            yield dict(plan, fail=[f])
    if plan["rounds"] > 1:
        yield dict(plan, rounds=1)
