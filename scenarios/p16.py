"""P16: tracking updates are delivered exactly once, in order, before shutdown ends."""

import pickle
import threading
from collections import defaultdict

from simkit import kernel
from simkit.kernel import Violation
from scenarios import common, sdklib

ID = "P16"
FOCUS = (sdklib.SDK,)
preload = sdklib.preload


def gen(rng, i, tier):
    n_threads = rng.choice([1, 1, 2, 3])
    nodes = [f"n{k}" for k in range(rng.randint(1, 4))]
    runs = [900 + k for k in range(rng.choice([1, 1, 2, 3]))]
    big = rng.random() < 0.12
    threads = []
    for _ in range(n_threads):
        ups = []
        for _ in range(rng.randint(60, 160) if big else rng.randint(0, 8)):
            ups.append({"run": rng.choice(runs), "node": rng.choice(nodes), "attrs": rng.choice([0, 1, 1, 2]),
                        "sample": rng.choice([None, None, True, True, False, "mixed"]),
                        "wait": rng.choice([0, 0, 0, 0.01, 1.0, 4.9, 5.0, 6.0]) if not big else 0})
        threads.append(ups)
    n_f = rng.choice([0, 0, 1, 2, 3])
    return {"threads": threads, "faults": [{"at": rng.randrange(5), "kind": rng.choice(sdklib.FAULTS)} for _ in range(n_f)],
            "latency": rng.choice([0, 0.05, 1.0]), "pickled": rng.random() < 0.15, "stall": rng.random() < 0.15,
            "idle": rng.random() < 0.3, "end": rng.choice(["stop", "stop", "stop2", "exit", "exit"]),
            "sched": common.gen_sched(rng)}


def run(plan, ctx):
    from hamilton_sdk.api import clients

    common.apply_granularity(ctx)
    sub = {}  # marker -> (run, node, thread, seq, sampled)
    order = defaultdict(list)  # (thread, run, node) -> markers submitted
    problems = []

    def body(sim):
        before = set(threading._active.values())
        srv = sdklib.Server(plan["faults"], latency=plan["latency"])
        sdklib.start(srv)
        client = clients.BasicSynchronousHamiltonClient("key", "user", "http://server")
        if plan["pickled"]:
            data = pickle.dumps(client)
            client = pickle.loads(data)
        busy = [len(plan["threads"])]
        if plan["stall"]:
            # the server does not answer before the dataflow is through
            srv.stall = lambda: busy[0] > 0

        def submit(tid):
            try:
                for k, u in enumerate(plan["threads"][tid]):
                    if u["wait"]:
                        sim.sleep(u["wait"])
                    n = max(1, u["attrs"])
                    samples = None
                    attrs, ups, marks = [], [], []
                    for j in range(n):
                        m = f"t{tid}u{k}p{j}"
                        marks.append(m)
                        attrs.append({"node_name": u["node"], "name": m} if u["attrs"] else None)
                        ups.append({"node_name": u["node"], m: 1, "last": m})
                    if u["sample"] is not None:
                        samples = [u["sample"] if u["sample"] != "mixed" else j % 2 == 0 for j in range(n)]
                    for j, m in enumerate(marks):
                        ok = samples is None or samples[j]
                        sub[m] = {"run": u["run"], "node": u["node"], "ok": ok, "attr": bool(u["attrs"])}
                        if ok:
                            order[(tid, u["run"], u["node"])].append(m)
                    client.update_tasks(u["run"], attributes=attrs, task_updates=ups, in_samples=samples)
                    sim.event("submitted", tid, k)
            except Exception as e:
                problems.append(("submit-error", f"update_tasks raised {type(e).__name__}: {e}"))
            finally:
                busy[0] -= 1

        ts = [threading.Thread(target=submit, args=(t,)) for t in range(len(plan["threads"]))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if plan["idle"]:
            for k in range(300):
                sim.sleep(5.0)
                if k > 20:  # simulated time passes while threads compute: give them steps, too
                    for _ in range(20):
                        sim.sleep(5.0)
                try:
                    check(srv, sub, order, "long after the last update")
                    break
                except Violation as v:
                    if v.kind != "lost-update" or k == 299:
                        raise
        try:
            if plan["end"] == "stop":
                client.stop()
            elif plan["end"] == "stop2":
                client.stop()
                client.stop()
        except Exception as e:
            raise Violation("stop-error", f"stop raised {type(e).__name__}: {e}")
        if plan["end"] != "exit":
            check(srv, sub, order, "when stop returned")
        errs = sdklib.process_exit(before)
        if errs:
            raise Violation("exit-error", f"at exit: {type(errs[0]).__name__}: {errs[0]}")
        if problems:
            raise Violation(*problems[0])
        check(srv, sub, order, "when the process ended")

    ctx.simulate(body)


def check(srv, sub, order, when):
    seen_a, seen_u = defaultdict(list), defaultdict(list)
    tried = set()
    for k, r in enumerate(srv.log):
        if r["route"] != "dag_runs_bulk":
            continue
        if r["headers"].get("x-api-user") != "user" or r["headers"].get("x-api-key") != "key":
            raise Violation("unauthenticated-request", f"request {k}: {r['headers']}")
        run_id = int(r["q"]["dag_run_id"])
        per_node = set()
        for what, out in (("attributes", seen_a), ("task_updates", seen_u)):
            for x in r["body"][what]:
                if what == "attributes":
                    marks = [x["name"]]
                else:
                    marks = [m for m in x if m not in ("node_name", "last")]
                    if x["node_name"] in per_node:
                        raise Violation("double-update", f"two updates of node {x['node_name']} in one request")
                    per_node.add(x["node_name"])
                for m in marks:
                    s = sub.get(m)
                    if s is None or not s["ok"] or s["node"] != x["node_name"] or s["run"] != run_id:
                        raise Violation("unknown-update", f"request {k} for run {run_id} carries {x}; submitted was {s}")
                    if r["failed"]:
                        tried.add(m)
                    elif r["acked"]:
                        out[m].append(k)
                if what == "task_updates" and r["processed"]:
                    # what counts last is what was submitted last
                    for (t, rr, nn), ms in order.items():
                        mine = [m for m in ms if m in marks]
                        if x["last"] in mine and mine[-1] != x["last"]:
                            raise Violation("stale-update", f"request {k}: update of {nn} ends with {x['last']}, "
                                            f"though {mine[-1]} came later")
    for m, s in sub.items():
        if not s["ok"]:
            continue
        for out, what in ((seen_a, "attribute"), (seen_u, "update")):
            if what == "attribute" and not s["attr"]:
                continue
            n = len(out[m])
            if n > 1:
                raise Violation("duplicate", f"{what} {m} acknowledged {n} times (requests {out[m]})")
            if n == 0 and m not in tried:
                raise Violation("lost-update", f"{what} {m} of run {s['run']} was never sent ({when})")
    for (t, rr, nn), ms in order.items():
        for out in (seen_a, seen_u):
            ks = [out[m][0] for m in ms if out[m]]
            if ks != sorted(ks):
                raise Violation("reordered", f"updates of {nn} in run {rr} by thread {t} arrived in requests {ks}")
        # inside one request attributes keep their order
        pos = {}
        for k, r in enumerate(srv.log):
            if r["acked"] and r["route"] == "dag_runs_bulk":
                for j, x in enumerate(r["body"]["attributes"]):
                    pos[x["name"]] = (k, j)
        ps = [pos[m] for m in ms if m in pos]
        if ps != sorted(ps):
            raise Violation("reordered", f"attributes of {nn} in run {rr} by thread {t} arrived as {ps}")


def shrink(plan):
    if len(plan["threads"]) > 1:
        for k in range(len(plan["threads"])):
            yield dict(plan, threads=plan["threads"][:k] + plan["threads"][k + 1:])
    for k, f in enumerate(plan["faults"]):
        yield dict(plan, faults=plan["faults"][:k] + plan["faults"][k + 1:])
    for k, ups in enumerate(plan["threads"]):
        if len(ups) > 4:
            for half in (ups[: len(ups) // 2], ups[len(ups) // 2:]):
                yield dict(plan, threads=plan["threads"][:k] + [half] + plan["threads"][k + 1:])
        for j in range(len(ups)):
            yield dict(plan, threads=plan["threads"][:k] + [ups[:j] + ups[j + 1:]] + plan["threads"][k + 1:])
            u = ups[j]
            for key, v in (("wait", 0), ("attrs", 1), ("sample", None)):
                if u[key] != v:
                    yield dict(plan, threads=plan["threads"][:k] + [ups[:j] + [dict(u, **{key: v})] + ups[j + 1:]]
                               + plan["threads"][k + 1:])
    for key, v in (("pickled", False), ("stall", False), ("idle", False), ("latency", 0)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    yield from common.shrink_sched(plan)
