"""P07: the async driver computes the right values exactly once, concurrently."""

import asyncio
import contextvars
from collections import Counter

from simkit import aio, drivers, flows, kernel
from simkit.kernel import Violation
from scenarios import common
from scenarios.p02 import check_calls

ID = "P07"
FOCUS = common.CORE_FOCUS
CLIENT = contextvars.ContextVar("client", default=None)


def preload():
    common.preload_core()


def async_flow(rng, odd=0, rich=0):
    flow = flows.gen_flow(rng, par_prob=0, max_plain=rng.choice([4, 8, 12]), rich=rng.random() < rich)
    for n in flow["nodes"]:
        if rng.random() < 0.75 and not n.get("loader") and n["kind"] != "field":
            n["async"] = True
            n["wait"] = rng.choice([[], [0], [0, 0, 0], [0.001], [0.01], [1.0], [0.01, 0, 0.5]])
        n["dur"] = 0
    if odd and rng.random() < odd:
        flows.oddify(rng, flow)
    return flow


def gen(rng, i, tier):
    if rng.random() < 0.1:
        n = rng.choice([2, 3, 5])
        return {"mode": "barrier", "n": n, "coro": rng.random() < 0.8, "sched": common.gen_sched(rng)}
    flow = async_flow(rng, odd=0.3, rich=0.4)
    clients = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        req = flows.gen_request(rng, flow, overrides_prob=0.4, config=False)
        flows.fresh_inputs(rng, flow, req["inputs"])
        c = {"req": req, "delay": rng.choice([0, 0, 0.001, 0.01, 0.3]), "n": rng.choice([1, 1, 2])}
        r = rng.random()
        names = [n["name"] for n in flow["nodes"] if n["kind"] != "field"]
        if r < 0.2:
            c["fail"] = rng.choice(names)
        elif r < 0.35:
            c["cancel"] = rng.choice([0, 0.0005, 0.005, 0.2, 1.2])
        elif r < 0.45:
            c["timeout"] = rng.choice([0.0005, 0.005, 0.2, 1.2])
        clients.append(c)
    twin = rng.random() < 0.3
    if twin:
        for c in clients:
            c["drv"] = rng.randrange(2)
    return {"mode": "general", "flow": flow, "twin": twin, "clients": clients, "builder": rng.random() < 0.5, "built": rng.random() < 0.2,
            "sched": common.gen_sched(rng)}


class AProbe(flows.Probe):
    def __init__(self, flow):
        super().__init__(flow)
        self.by_client = []  # (client, rec)
        self.fail_for = {}  # client -> node
        self.raised = []

    def _note(self, name, kwargs):
        sim = kernel.SIM
        rec = (name, flows.freeze(kwargs))
        c = CLIENT.get()
        self.by_client.append((c, rec))
        sim.event("start", c, name, rec[1])
        sim.trace_hash = hash((sim.trace_hash, sim.step, hash(str(c)), hash(name)))
        sim.yield_point()
        return c

    def _boom(self, c, name):
        if c is not None and self.fail_for.get(c[0]) == name:
            e = flows.NodeBoom(f"{name} for {c}")
            self.raised.append((c, e))
            kernel.SIM.count("fault:node_error")
            raise e

    async def anode(self, name, kwargs, ver=0):
        c = self._note(name, kwargs)
        for w in self.nodes[name].get("wait", []):
            await asyncio.sleep(w)
        self._boom(c, name)
        kernel.SIM.event("end", c, name)
        return flows.value_of(self.nodes[name], name, kwargs, ver)

    def node(self, name, kwargs, ver=0):
        c = self._note(name, kwargs)
        self._boom(c, name)
        return flows.value_of(self.nodes[name], name, kwargs, ver)


async def make_driver(mod, builder, adapters=(), built=False):
    from hamilton import async_driver, base

    if built and builder:
        adapters = [*adapters, drivers.result_builder()]
    elif built:
        dr = async_driver.AsyncDriver({}, mod, result_builder=drivers.result_builder(), adapters=list(adapters))
        return await dr.ainit()

    if builder:
        b = async_driver.Builder().with_modules(mod)
        if adapters:
            b = b.with_adapters(*adapters)
        return await b.build()
    dr = async_driver.AsyncDriver({}, mod, result_builder=base.DictResult(), adapters=list(adapters))
    return await dr.ainit()


def run(plan, ctx):
    if plan["mode"] == "barrier":
        return run_barrier(plan, ctx)
    flow = plan["flow"]
    probe = AProbe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    # a second driver over the same functions, some of them async in one and ordinary in the other
    mod2 = None
    if plan.get("twin"):
        flow2 = dict(flow, nodes=[dict(n, **{"async": not n.get("async")}) for n in flow["nodes"]])
        mod2 = flows.build_module(flows.source_for(flow2), probe)
    errs = []

    def body(sim):
        async def main():
            drs = [await make_driver(m, plan["builder"], built=plan.get("built")) for m in (mod, mod2) if m is not None]

            async def client(k, c):
                await asyncio.sleep(c["delay"])
                req = c["req"]
                ref = flows.Ref(flow, req)
                if c.get("fail"):
                    probe.fail_for[k] = c["fail"]
                will = bool(c.get("fail")) and any(n == c["fail"] for n, _ in ref.calls)
                for j in range(c["n"]):
                    CLIENT.set((k, j))
                    inputs, over, final = dict(req["inputs"]), dict(req["overrides"]), list(req["final"])
                    coro = drs[c.get("drv", 0)].execute(final, inputs=inputs, overrides=over)
                    try:
                        if c.get("timeout") is not None:
                            out = await asyncio.wait_for(coro, c["timeout"])
                        elif c.get("cancel") is not None:
                            t = asyncio.ensure_future(coro)
                            asyncio.get_running_loop().call_later(c["cancel"], t.cancel)
                            out = await t
                        else:
                            out = await coro
                    except flows.NodeBoom as e:
                        if not will or not any(e is x for cc, x in probe.raised if cc == (k, j)):
                            raise Violation("foreign-failure", f"client {k} got {e!r}")
                        continue
                    except asyncio.TimeoutError:
                        if c.get("timeout") is None:
                            raise
                        sim.count("fault:timeout")
                        continue
                    except asyncio.CancelledError:
                        if c.get("cancel") is None:
                            raise Violation("foreign-cancel", f"client {k} was cancelled by another call")
                        sim.count("fault:cancel")
                        continue
                    if inputs != req["inputs"] or over != req["overrides"] or final != req["final"]:
                        raise Violation("arguments-modified", f"client {k}")
                    if will:
                        raise Violation("failure-swallowed", f"client {k} got {flows.show(out)}")
                    out = drivers.unbuilt(out, plan.get("built"))
                    if not flows.same(out, ref.result):
                        raise Violation("wrong-result", f"client {k}: got {flows.show(out)} expected {flows.show(ref.result)}")
                    check_calls(Counter(r for cc, r in probe.by_client if cc == (k, j)), ref.calls)

            async def guarded(k, c):
                try:
                    await client(k, c)
                except Violation as v:
                    errs.append(v)
                except BaseException as e:
                    errs.append(Violation("unexpected-error", f"client {k}: {type(e).__name__}: {e}"))

            await asyncio.gather(*[guarded(k, c) for k, c in enumerate(plan["clients"])])

        _, unhandled, left = aio.run(main())
        if left:
            raise Violation("left-running", f"{len(left)} tasks never finish")
        for k, c in enumerate(plan["clients"]):
            ref = flows.Ref(flow, c["req"])
            for j in range(c["n"]):
                check_calls(Counter(r for cc, r in probe.by_client if cc == (k, j)), ref.calls, subset=True)
        if not errs and not plan_disturbed(plan):
            bad = [u for u in unhandled if "exception" in u]
            if bad:
                raise Violation("unhandled-error", f"{bad[0].get('message')}: {bad[0]['exception']!r}")

    ctx.simulate(body)
    if errs:
        raise errs[0]


def plan_disturbed(plan):
    return any(c.get("fail") or c.get("cancel") is not None or c.get("timeout") is not None
               for c in plan["clients"])


def run_barrier(plan, ctx):
    """n functions without dependencies on each other wait for each other."""
    n = plan["n"]
    flow = {"inputs": {"in1": 1}, "optional": [], "nodes": [
        {"name": f"a{k}", "kind": "plain", "deps": ["in1"], "async": True} for k in range(n)
    ] + [{"name": "z", "kind": "plain", "deps": [f"a{k}" for k in range(n)], "async": True}]}
    state = {"n": 0}

    class BProbe(AProbe):
        async def anode(self, name, kwargs, ver=0):
            if name != "z":
                state["n"] += 1
                for _ in range(200):
                    if state["n"] >= n:
                        break
                    await asyncio.sleep(0.01)
                else:
                    raise Violation("not-concurrent", f"only {state['n']} of {n} independent functions in flight")
            return await super().anode(name, kwargs, ver)

    probe = BProbe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)

    def body(sim):
        async def main():
            dr = await make_driver(mod, True)
            return await dr.execute(["z"], inputs={"in1": 1})

        return aio.run(main())[0]

    ref = flows.Ref(flow, {"inputs": {"in1": 1}, "overrides": {}, "final": ["z"]})
    out = ctx.simulate(body)
    if not flows.same(out, ref.result):
        raise Violation("wrong-result", f"{flows.show(out)} {flows.show(ref.result)}")


def shrink(plan):
    if plan["mode"] == "barrier":
        return
    if plan.get("built"):
        yield dict(plan, built=False)
    cl = plan["clients"]
    if len(cl) > 1:
        for k in range(len(cl)):
            yield dict(plan, clients=cl[:k] + cl[k + 1:])
    for k, c in enumerate(cl):
        def rep(c2):
            x = list(cl)
            x[k] = c2
            return dict(plan, clients=x)
        for key in ("fail", "cancel", "timeout"):
            if c.get(key) is not None:
                yield rep({a: b for a, b in c.items() if a != key})
        if c["n"] > 1:
            yield rep(dict(c, n=1))
        if c["delay"]:
            yield rep(dict(c, delay=0))
        if c["req"]["overrides"]:
            yield rep(dict(c, req=dict(c["req"], overrides={})))
        for f in c["req"]["final"]:
            if len(c["req"]["final"]) > 1:
                yield rep(dict(c, req=dict(c["req"], final=[f])))
    for j, nd in enumerate(plan["flow"]["nodes"]):
        if nd.get("wait"):
            ns = list(plan["flow"]["nodes"])
            ns[j] = dict(nd, wait=[])
            yield dict(plan, flow=dict(plan["flow"], nodes=ns))
