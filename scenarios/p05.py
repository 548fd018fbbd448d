"""P05: lifecycle hooks observe every execution completely and in order."""

import threading
from collections import Counter

from simkit import drivers, flows, hooks, kernel
from simkit.kernel import Violation
from scenarios import common, p01, p04, peers

ID = "P05"
FOCUS = common.CORE_FOCUS
preload = p01.preload


def gen(rng, i, tier):
    if rng.random() < 0.5:
        plan = p04.gen(rng, i, tier, rich=False, evil=False)
    else:
        flow = flows.gen_flow(rng, par_prob=0.7)
        plan = {"flow": flow, "req": flows.gen_request(rng, flow), "exec": drivers.gen_exec(rng, flow),
                "fail": [], "sched": common.gen_sched(rng)}
    plan["rounds"] = rng.choice([1, 1, 2])
    recs = []
    for k in range(rng.randint(1, 3)):
        kinds = [x for x in ("graph", "task", "node") if rng.random() < 0.8] or ["node"]
        recs.append({"kinds": kinds, "style": rng.choice(["api", "api", "base"]), "dup": rng.random() < 0.15})
    plan["recs"] = recs
    if rng.random() < 0.5:
        plan["more"] = p01.vary(rng, plan["flow"], plan["req"])
    plan["peer"] = peers.gen_peer(rng, plan["flow"], plan["req"], plan["exec"])
    return plan


class TraceProbe(flows.Probe):
    """Also reports calls to the trace."""

    def __init__(self, flow, trace, fail=None):
        super().__init__(flow, fail)
        self.trace = trace

    def node(self, name, kwargs, ver=0):
        return self._traced(super().node, name, kwargs, ver)

    def expand(self, name, kwargs, ver=0):
        return self._traced(super().expand, name, kwargs, ver)

    def _traced(self, fn, name, kwargs, ver):
        expand = self.nodes[name]["kind"] == "expand"
        lazy = expand and self.nodes[name].get("gen", True)
        self.trace.add("fn", "start", node=name, kwargs=flows.freeze(kwargs))
        try:
            out = fn(name, kwargs, ver)
            if expand:
                out = list(out)
        except flows.ANY as e:
            self.trace.add("fn", "end", node=name, success=False, error=e, result=None)
            raise
        self.trace.add("fn", "end", node=name, success=True, error=None, result=out)
        return out


class Side:
    """A driver with its recorders, and what they saw."""

    def __init__(self, plan, flow, req, exec_plan, name=None):
        self.plan, self.flow, self.exec = plan, flow, exec_plan
        self.trace = hooks.Trace()
        self.probe = TraceProbe(flow, self.trace)
        self.mod = flows.build_module(flows.source_for(flow), self.probe, name=name)
        self.recs = [(f"r{k}", set(r["kinds"])) for k, r in enumerate(plan["recs"])]
        adapters = [hooks.make_recorder(self.trace, f"r{k}", set(r["kinds"]), r["style"])
                    for k, r in enumerate(plan["recs"])]
        adapters += [a for a, r in zip(adapters, plan["recs"]) if r.get("dup")]  # given twice: still one adapter
        self.dr, _ = drivers.build_driver(self.mod, exec_plan, adapters=adapters, config=req.get("config"))
        self.seen_runs = set()
        self.err = None

    def execute(self, req, fail=()):
        probe, trace, recs = self.probe, self.trace, self.recs
        ref = flows.Ref(self.flow, req)
        expect_fail = bool(fail) and p04.must_fail(dict(self.plan, fail=fail), ref)
        probe.calls.clear()
        probe.nth.clear()
        probe.raised.clear()
        probe.fail = fail
        trace.ev.clear()
        try:
            out = ("ok", self.dr.execute(list(req["final"]), inputs=dict(req["inputs"]),
                                         overrides=dict(req["overrides"])))
        except flows.ANY as e:
            if not any(e is x for x in probe.raised):
                raise Violation("unexpected-error", f"{type(e).__name__}: {e}")
            out = ("err", e)
        evs = list(trace.ev)
        # a thread other than the driver's only ever sees task/node events
        nodes, tasks = hooks.check_protocol(evs, recs, req, ref, out, self.exec["kind"] == "task")
        if any("node" in r[1] for r in recs):
            got = Counter((d["node"], d["kwargs"]) for d in nodes.values())
            want = Counter((n, tuple((k, v) for k, v in kw if not (k.startswith("opt") and v == flows.DEFAULT_OPT)))
                           for n, kw in probe.calls)
            got = Counter({(n, tuple((k, v) for k, v in kw if not (k.startswith("opt") and v == flows.DEFAULT_OPT))): c
                           for (n, kw), c in got.items()})
            if got != want:
                raise Violation("hook-missing", f"node events {list((want - got).items())[:3]} missing, "
                                f"{list((got - want).items())[:3]} surplus")
        rid = {e[3]["run"] for e in evs if e[1] != "fn"}
        if rid & self.seen_runs:
            raise Violation("hook-run-id", "run id reused by a later execution")
        self.seen_runs.update(rid)
        if out[0] == "ok" and not flows.same(out[1], ref.result):
            raise Violation("wrong-result", f"{flows.show(out[1])} != {flows.show(ref.result)}")
        if out[0] == "ok" and expect_fail:
            raise Violation("failure-swallowed", "a function raised but execute returned")


def run(plan, ctx):
    main = Side(plan, plan["flow"], plan["req"], plan["exec"])
    peer, pp = None, plan.get("peer")
    if pp:
        peer = Side(plan, pp["flow"], pp["req"], pp["exec"], main.mod.__name__ if pp["same_name"] else None)
    common.apply_granularity(ctx)

    def beside():
        try:
            peer.execute(pp["req"])
        except Violation as v:
            peer.err = v

    def body(sim):
        th = None
        if peer:
            if pp["when"] == "before":
                peer.execute(pp["req"])
            else:
                th = threading.Thread(target=beside)
                th.start()
        for k in range(plan["rounds"]):
            main.execute(plan["more"] if k and plan.get("more") else plan["req"], plan["fail"])
        if th:
            th.join()
            if peer.err:
                raise peer.err
        if peer:
            peer.execute(pp["req"])
            if peer.seen_runs & main.seen_runs:
                raise Violation("hook-run-id", "two drivers' executions have one run id")

    try:
        ctx.simulate(body)
    except Violation:
        raise
    except Exception as e:
        raise Violation("unexpected-error", f"{type(e).__name__}: {e}")


def shrink(plan):
    if len(plan["recs"]) > 1:
        for k in range(len(plan["recs"])):
            yield dict(plan, recs=plan["recs"][:k] + plan["recs"][k + 1:])
    yield from peers.shrink_peer(plan)
    if plan.get("more"):
        yield dict(plan, more=None)
        return
    yield from p04.shrink(plan)
    if len(plan["fail"]) == 1:
        yield dict(plan, fail=[])
