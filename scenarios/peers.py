"""A second driver over another dataflow in the same process: whatever one driver does, the other's executions
must not depend on it.  Function names of the two dataflows coincide."""

import copy
import threading
from collections import Counter

from simkit import drivers, flows
from simkit.kernel import Violation


def gen_peer(rng, flow, req, exec_plan, prob=0.3):
    """The dataflow of the other driver: the same function names (an edited copy) or an unrelated one."""
    if rng.random() >= prob:
        return None
    if rng.random() < 0.6:
        fl, rq = edited(rng, flow, req)
    else:
        fl = flows.gen_flow(rng, par_prob=0.5, max_width=3)
        rq = flows.gen_request(rng, fl)
    procs = any(exec_plan.get(k, {}).get("t") == "procs" for k in ("local", "remote"))
    return {"flow": fl, "req": rq, "exec": drivers.gen_exec(rng, fl, procs=0),
            "when": rng.choice(["before", "before", "beside"]),
            "same_name": not procs and rng.random() < 0.4}


def edited(rng, flow, req):
    fl, rq = copy.deepcopy(flow), copy.deepcopy(req)
    for n in fl["nodes"]:
        if rng.random() < 0.5 and n["kind"] != "field":
            n["ver"] = rng.randint(1, 9)
        if n["kind"] == "expand" and rng.random() < 0.5:
            n["width"] = rng.randrange(5)
        if n["kind"] == "plain" and n["deps"] and not n.get("dflt") and not n.get("fields") and rng.random() < 0.3:
            n["deps"].remove(rng.choice(n["deps"]))
    if not fl.get("odd"):
        for k in rq["inputs"]:
            if rng.random() < 0.5:
                rq["inputs"][k] = rng.randrange(3000, 4000)
    if rng.random() < 0.5:
        rq["overrides"] = {}
    return fl, rq


class Peer:
    def __init__(self, peer, name=None):
        self.flow, self.req, self.when = peer["flow"], peer["req"], peer["when"]
        self.probe = flows.Probe(self.flow)
        self.ref = flows.Ref(self.flow, self.req)
        mod = flows.build_module(flows.source_for(self.flow), self.probe, name=name if peer["same_name"] else None)
        self.dr, _ = drivers.build_driver(mod, peer["exec"], config=self.req.get("config"))
        self.err = None
        self.thread = None

    def execute(self):
        self.probe.calls.clear()
        try:
            out = self.dr.execute(list(self.req["final"]), inputs=dict(self.req["inputs"]),
                                  overrides=dict(self.req["overrides"]))
        except Exception as e:
            raise Violation("peer-error", f"another driver in the process: {type(e).__name__}: {e}")
        if not flows.same(out, self.ref.result):
            raise Violation("peer-wrong-result", f"another driver in the process: got {flows.show(out)} "
                            f"expected {flows.show(self.ref.result)}")
        from scenarios.p02 import check_calls

        check_calls(Counter(self.probe.calls), self.ref.calls)

    def begin(self):
        if self.when == "before":
            self.execute()
            return

        def work():
            try:
                self.execute()
            except Violation as v:
                self.err = v

        self.thread = threading.Thread(target=work)
        self.thread.start()

    def end(self):
        if self.thread is not None:
            self.thread.join()
        if self.err is not None:
            raise self.err
        self.execute()


def shrink_peer(plan):
    p = plan.get("peer")
    if not p:
        return
    yield dict(plan, peer=None)
    if p["when"] == "beside":
        yield dict(plan, peer=dict(p, when="before"))
    if p["same_name"]:
        yield dict(plan, peer=dict(p, same_name=False))
    for fl, rq in flows.shrink_flow(p["flow"], p["req"]):
        yield dict(plan, peer=dict(p, flow=fl, req=rq))
    for e in drivers.shrink_exec(p["exec"]):
        yield dict(plan, peer=dict(p, exec=e))
