"""P18: the async tracker reports exactly what each run did, and never disturbs it."""

import asyncio
import gc
import time

from simkit import aio, flows, kernel, values
from simkit.kernel import Violation
from scenarios import common, p07, p17, sdklib

ID = "P18"
FOCUS = sdklib.FOCUS


def preload():
    p17.preload()


def gen(rng, i, tier):
    fl = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = p07.async_flow(rng)
        for n in f["nodes"]:
            if n["kind"] == "plain" and not n.get("fields") and rng.random() < 0.12:
                n["typ"] = rng.choice(["evil", "list", "dict", "str", "frame", "obj"])
            if n.get("wait") and rng.random() < 0.1:
                n["wait"] = [rng.choice([4.9, 6.0, 20.0])]
        fl.append(f)
    clients = []
    for _ in range(rng.choice([1, 2, 3, 4, 8])):
        k = rng.randrange(len(fl))
        c = {"flow": k, "req": flows.gen_request(rng, fl[k], overrides_prob=0.3, config=False),
             "delay": rng.choice([0, 0, 0.001, 0.3, 4.0, 6.0]), "n": rng.choice([1, 1, 2, 3]),
             "fresh": rng.random() < 0.3, "builder": rng.random() < 0.5}
        if rng.random() < 0.3:
            c["fail"] = rng.choice([n["name"] for n in fl[k]["nodes"] if n["kind"] != "field"])
        if rng.random() < 0.1:
            c["timeout"] = rng.choice([0.0005, 0.04, 0.2, 1.2])
        clients.append(c)
    return {"flows": fl, "clients": clients, "batch": rng.choice([None, None, 1, 3, 10]),
            "stall": rng.random() < 0.15, "preinit": rng.random() < 0.5, "together": rng.random() < 0.5,
            "faults": [{"at": rng.randrange(4), "kind": rng.choice(sdklib.FAULTS)}
                       for _ in range(rng.choice([0, 0, 1, 2, 3]))],
            "latency": rng.choice([0, 0.05, 0.05]), "sample": None,
            "jump": [{"at": rng.choice([0.0, 0.1, 3.0, 8.0]), "by": rng.choice([-86400, -3600, -30, 30, 3600])}
                     for _ in range(rng.choice([1, 2]))] if rng.random() < 0.15 else [], "sched": common.gen_sched(rng)}


class AProbe(p07.AProbe):
    def _val(self, name, kwargs, ver):
        return flows.value_of(self.nodes.get(name), name, kwargs, ver)

    def _note(self, name, kwargs):
        kernel.SIM.event("start", name)
        kernel.SIM.yield_point()
        return p07.CLIENT.get()

    async def anode(self, name, kwargs, ver=0):
        c = self._note(name, kwargs)
        for w in self.nodes[name].get("wait", []):
            await asyncio.sleep(w)
        self._boom(c, name)
        return self._val(name, kwargs, ver)

    def node(self, name, kwargs, ver=0):
        self._boom(self._note(name, kwargs), name)
        return self._val(name, kwargs, ver)


def make_obs(pos, log):
    from hamilton.lifecycle import base

    class Obs(base.BasePreNodeExecuteAsync, base.BasePostNodeExecuteAsync, base.BasePreGraphExecuteAsync):
        async def pre_graph_execute(self, *, run_id, graph, final_vars, inputs, overrides):
            log.append((pos, "graph", run_id, None, None, time.time(), {"inputs": dict(inputs or {})}))

        async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
            log.append((pos, "pre", run_id, task_id, node_.name, time.time(), None))

        async def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
            log.append((pos, "post", run_id, task_id, node_.name, time.time(),
                        {"success": success, "error": error, "result": result}))

    return Obs()


def run(plan, ctx):
    from hamilton_sdk import adapters

    probes, mods = [], []
    for k, f in enumerate(plan["flows"]):
        p = AProbe(f)
        probes.append(p)
        mods.append(flows.build_module(flows.source_for(f), p, name=f"asdkflow{k}", path=f"{ctx.scratch}/asdkflow{k}.py"))
    common.apply_granularity(ctx)
    adapters.id = p17.IdSpace()
    log, errs, execs = [], [], []
    srv = sdklib.Server(plan["faults"], latency=plan["latency"])

    def body(sim):
        sdklib.start(srv)
        busy = [len(plan["clients"])]
        if plan.get("stall"):
            srv.stall = lambda: busy[0] > 0

        async def main():
            tracker = adapters.AsyncHamiltonTracker(project_id=1, username="user", dag_name="dag", api_key="key",
                                                    hamilton_api_url="http://server", hamilton_ui_url="http://ui")
            if plan["batch"]:
                tracker.client.max_batch_size = plan["batch"]
            ads = [make_obs("A", log), tracker, make_obs("B", log)]
            if plan["preinit"]:
                await tracker.ainit()
            shared = {}
            if plan["together"]:
                for k, dr in enumerate(await asyncio.gather(*[p07.make_driver(m, True, ads) for m in mods])):
                    shared[k] = dr
            else:
                for k, mod in enumerate(mods):
                    shared[k] = await p07.make_driver(mod, True, ads)
            daemons = set(asyncio.all_tasks()) - {asyncio.current_task()}  # the client's delivery worker

            async def clock(j):
                await asyncio.sleep(j["at"])
                sim.wall_offset += j["by"]
                sim.count("fault:clock_jump")
                sim.event("clock", j["by"])

            jumps = [asyncio.ensure_future(clock(j)) for j in plan["jump"]]

            async def client(u, c):
                k = c["flow"]
                if c.get("fail"):
                    probes[k].fail_for[u] = c["fail"]
                await asyncio.sleep(c["delay"])
                for j in range(c["n"]):
                    p07.CLIENT.set((u, j))
                    marker = 10_000 + u * 100 + j
                    inputs = dict(c["req"]["inputs"])
                    inputs[sorted(plan["flows"][k]["inputs"])[0]] = marker
                    req = dict(c["req"], inputs=inputs)
                    ref = flows.Ref(plan["flows"][k], req)
                    will = bool(c.get("fail")) and any(n == c["fail"] for n, _ in ref.calls)
                    dr = await p07.make_driver(mods[k], c["builder"], ads) if c["fresh"] else shared[k]
                    rec = {"marker": marker, "flow": k, "final": list(req["final"]), "t0": time.time(), "cut": False}
                    execs.append(rec)
                    coro = dr.execute(list(req["final"]), inputs=dict(inputs), overrides=dict(req["overrides"]))
                    try:
                        if c.get("timeout") is not None:
                            out = await asyncio.wait_for(coro, c["timeout"])
                        else:
                            out = await coro
                        rec["ok"] = True
                    except flows.NodeBoom as e:
                        rec["ok"] = False
                        if not any(e is x for cc, x in probes[k].raised if cc == (u, j)):
                            raise Violation("foreign-failure", f"client {u} got {e!r}")
                    except asyncio.TimeoutError:
                        if c.get("timeout") is None:
                            raise
                        sim.count("fault:timeout")
                        rec["ok"], rec["cut"] = False, True
                    rec["t1"] = time.time()
                    if rec["ok"]:
                        if will:
                            raise Violation("failure-swallowed", f"client {u}")
                        if values.canon(out) != values.canon(ref.result):
                            raise Violation("wrong-result", f"got {values.canon(out)} expected {values.canon(ref.result)}")
                    del dr
                    gc.collect()

            async def guarded(u, c):
                try:
                    await client(u, c)
                except Violation as v:
                    errs.append(v)
                except BaseException as e:
                    errs.append(Violation("tracker-error", f"client {u}: {type(e).__name__}: {e}"))
                finally:
                    busy[0] -= 1

            await asyncio.gather(*jumps, *[guarded(u, c) for u, c in enumerate(plan["clients"])])
            if errs:
                return
            # what is still running in abandoned executions ends
            for _ in range(100):
                if not [t for t in asyncio.all_tasks() if t is not asyncio.current_task() and t not in daemons]:
                    break
                await asyncio.sleep(1.0)
            # the worker delivers within a few flush intervals (and 60 s per failing request)
            last = None
            for _ in range(60):
                try:
                    check(plan, execs, srv, log)
                    last = None
                    break
                except Violation as v:
                    last = v
                await asyncio.sleep(5.0)
            if last:
                raise last
            n = len(srv.log)
            await asyncio.sleep(30.0)
            check(plan, execs, srv, log)
            late = [r for r in srv.log[n:] if r["route"] != "dag_runs_bulk" or r["body"]["task_updates"]]
            if late and not plan["faults"] and not any(r["cut"] for r in execs):
                raise Violation("sent-again", f"{len(late)} more requests after everything was delivered")

        _, unhandled, _ = aio.run(main(), drain=False)
        if errs:
            raise errs[0]

    ctx.simulate(body)


def check(plan, execs, srv, log):
    for rec in execs:
        if rec["cut"]:
            check_cut(plan, rec, srv)
        else:
            p17.check(plan, rec, srv, log)


def check_cut(plan, rec, srv):
    key = sorted(plan["flows"][rec["flow"]]["inputs"])[0]
    mine = [r for r in srv.log if r["route"] == "dag_runs" and r["method"] == "POST"
            and r["body"]["inputs"].get(key) == rec["marker"]]
    if len(mine) > 1:
        raise Violation("run-not-registered-once", f"{rec['marker']}: {len(mine)} runs registered")
    if mine and "id" in mine[0]:
        ends = [r for r in srv.log if r["route"] == "dag_runs" and r["method"] == "PUT" and r["path"][1] == str(mine[0]["id"])]
        if len(ends) > 1:
            raise Violation("run-not-closed-once", f"{rec['marker']}: {len(ends)} end records")


def shrink(plan):
    cl = plan["clients"]
    if len(cl) > 1:
        for k in range(len(cl)):
            yield dict(plan, clients=cl[:k] + cl[k + 1:])
    if plan["faults"]:
        yield dict(plan, faults=plan["faults"][1:])
    if plan["jump"]:
        yield dict(plan, jump=plan["jump"][1:])
    for k, c in enumerate(cl):
        def rep(c2):
            x = list(cl)
            x[k] = c2
            return dict(plan, clients=x)
        for key in ("fail", "timeout"):
            if c.get(key) is not None:
                yield rep({a: b for a, b in c.items() if a != key})
        if c["n"] > 1:
            yield rep(dict(c, n=1))
        if c["delay"]:
            yield rep(dict(c, delay=0))
        if c["req"]["overrides"]:
            yield rep(dict(c, req=dict(c["req"], overrides={})))
        if len(c["req"]["final"]) > 1:
            yield rep(dict(c, req=dict(c["req"], final=c["req"]["final"][:1])))
    yield from common.shrink_sched(plan)
