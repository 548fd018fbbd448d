"""P13: the cache is safe under parallel tasks and shared directories."""

import copy
import threading

from simkit import drivers, flows, kernel, vfs
from simkit.kernel import Violation
from scenarios import cachelib as cl
from scenarios import common

ID = "P13"
FOCUS = cl.FOCUS


def preload():
    cl.preload()


def par_exec(rng, flow):
    e = drivers.gen_exec(rng, flow)
    if e["kind"] == "task" and rng.random() < 0.7:
        e["remote"] = {"t": "threads", "n": rng.choice([2, 3, 4])}
    return e


def gen(rng, i, tier):
    mode = rng.choice(["branches", "shared", "shared"])
    store = rng.choice(["disk", "disk", "split"])
    flow = cl.gen_cache_flow(rng, max_plain=3 if mode == "shared" else 4, par_prob=0.95 if mode == "branches" else 0.4,
                             rich=True)
    if store != "memory":
        flow["procs"] = 0.15
    if rng.random() < 0.3:
        for n in flow["nodes"]:
            if n["typ"] == "str":
                n["typ"] = "bigstr"
    if mode == "branches":
        # branches that share results, and branches that are all different
        for n in flow["nodes"]:
            if n["kind"] == "expand" and n["width"] < 3 and not n.get("perm"):
                n["width"] = rng.randint(2, 5)
        clients = 1
    else:
        clients = rng.choice([2, 2, 3])
    base = cl.gen_exec_item(rng, flow)
    cs, prev = [], base
    for _ in range(clients):
        execs = []
        for _ in range(rng.choice([1, 1, 2]) if mode == "shared" else rng.randint(1, 3)):
            e = cl.gen_exec_item(rng, flow, rng.choice([base, prev]), mutate=rng.random() < 0.4)
            e["exec"] = par_exec(rng, flow)
            execs.append(e)
            prev = e
        cs.append({"execs": execs, "start": rng.choice([0, 0, 0, 0.01, 0.3])})
    warm = [copy.deepcopy(base)] if rng.random() < 0.35 else []
    if rng.random() < 0.3:
        for n in flow["nodes"]:
            n["dur"] = rng.choice([0, 0.01, 0.1])
    return {"mode": mode, "flow": flow, "clients": cs, "warm": warm, "store": store,
            "sched": common.gen_sched(rng, 0.3)}


def run(plan, ctx):
    common.apply_granularity(ctx)
    root = ctx.scratch + "/cache"
    flow = plan["flow"]
    model = cl.Model(flow)

    def serial(execs, label):
        def body(sim):
            vfs.attach(ctx.scratch)
            s = cl.Session(sim, flow, root, plan["store"])
            res = []
            for j, e in enumerate(execs):
                out, exc, probe, dr = s.execute(e)
                cl.check_result(flow, e, out, exc, probe, f"{label} execution {j}")
                res.append(list(probe.calls))
            return res

        st, res = ctx.life(body)
        for j, e in enumerate(execs):
            model.check(e, res[j], f"{label} execution {j}")
            model.commit(e)

    if plan["warm"]:
        serial(plan["warm"], "before")

    def body(sim):
        vfs.attach(ctx.scratch)
        problems, allcalls = [], []

        def client(c, cp):
            try:
                if cp["start"]:
                    sim.sleep(cp["start"])
                s = cl.Session(sim, flow, root, plan["store"])
                for j, e in enumerate(cp["execs"]):
                    out, exc, probe, dr = s.execute(e)
                    allcalls.append((c, j, list(probe.calls)))
                    cl.check_result(flow, e, out, exc, probe, f"client {c} execution {j}")
            except Violation as v:
                problems.append(v)

        ths = [threading.Thread(target=client, args=(c, cp)) for c, cp in enumerate(plan["clients"])]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if problems:
            raise problems[0]
        return allcalls

    st, calls = ctx.life(body)
    for c, cp in enumerate(plan["clients"]):
        for e in cp["execs"]:
            model.maybe_commit(e)
    for c, j, cs in calls:
        model.check(plan["clients"][c]["execs"][j], cs, f"client {c} execution {j}")
    for c, cp in enumerate(plan["clients"]):
        for e in cp["execs"]:
            model.commit(e)
    serial([dict(e, fresh=True) for cp in plan["clients"] for e in cp["execs"]], "afterwards")


def shrink(plan):
    cs = plan["clients"]
    if len(cs) > 1:
        for k in range(len(cs)):
            yield dict(plan, clients=cs[:k] + cs[k + 1:])
    if plan["warm"]:
        yield dict(plan, warm=[])
    as_lives = dict(plan, lives=[{"execs": c["execs"], "start": c["start"]} for c in cs] + ([{"execs": plan["warm"], "warm": 1}] if plan["warm"] else []))
    for p in cl.shrink_history(as_lives):
        ls = p["lives"]
        w = [l for l in ls if l.get("warm")]
        c2 = [{"execs": l["execs"], "start": l["start"]} for l in ls if not l.get("warm")]
        if not c2:
            continue
        q = {k: v for k, v in p.items() if k != "lives"}
        yield dict(q, clients=c2, warm=w[0]["execs"] if w else [])
    if plan["store"] != "disk":
        yield dict(plan, store="disk")
    yield from common.shrink_sched(plan)
