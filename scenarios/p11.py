"""P11: a crash never corrupts the cache."""

from simkit import vfs
from simkit.kernel import Violation
from scenarios import cachelib as cl
from scenarios import common

ID = "P11"
FOCUS = cl.FOCUS


def preload():
    cl.preload()


def gen_crash(rng):
    r = rng.random()
    if r < 0.3:
        return {"step": int(2 ** rng.uniform(5, 13))}
    if r < 0.45:
        return {"io": {"op": "any", "nth": rng.randrange(120), "what": "crash"}}
    op = rng.choice(["write", "write", "write", "replace", "close", "open_w", "db", "db", "db_commit",
                     "db_commit", "db_connect", "mkdir", "unlink", "stat", "read", "open_r"])
    return {"io": {"op": op, "nth": int(rng.triangular(0, 14, 1)), "what": "crash",
                   "frac": rng.choice([0, 0, 0.1, 0.5, 0.9, 0.99, 1])}}


def gen(rng, i, tier):
    deep = tier == "thorough" and rng.random() < 0.3
    store = rng.choice(["disk", "disk", "split"])
    flow = cl.gen_cache_flow(rng, max_plain=4, par_prob=0.5, rich=True, fmt="often")
    if store != "memory":
        flow["procs"] = 0.15
    if rng.random() < 0.3:
        for n in flow["nodes"]:
            if n["typ"] == "str":
                n["typ"] = "bigstr"
    lives = cl.gen_history(rng, flow, n_lives=(1, 4 if deep else 3), n_execs=(1, 3))
    for lf in lives:
        if rng.random() < 0.85:
            lf["crash"] = gen_crash(rng)
        lf["log"] = rng.random() < 0.3
    # after the crashes: the same executions again
    tail = [dict(l["execs"][-1], fresh=True) for l in lives]
    rng.shuffle(tail)
    lives.append({"execs": tail, "log": rng.random() < 0.3})
    # and what these did is reused in turn
    if rng.random() < 0.6:
        lives.append({"execs": [dict(e) for e in rng.sample(tail, rng.randint(1, len(tail)))]})
    return {"flow": flow, "lives": lives, "store": store, "sched": common.gen_sched(rng, 0.1)}


def run(plan, ctx):
    root = ctx.scratch + "/cache"
    flow = plan["flow"]
    model = cl.Model(flow)
    for k, lf in enumerate(plan["lives"]):
        crash = lf.get("crash") or {}

        def body(sim):
            vfs.attach(ctx.scratch, [crash["io"]] if "io" in crash else [])
            s = cl.Session(sim, flow, root, plan["store"], log_to_file=lf.get("log", False))
            for j, e in enumerate(lf["execs"]):
                sim.event("begin", j)
                out, exc, probe, dr = s.execute(e)
                cl.check_result(flow, e, out, exc, probe, f"life {k} execution {j}")
                sim.event("done", j)
            return None

        ctx.life(body, start_time=1000.0 * k, crash_at=crash.get("step"))
        account(model, lf["execs"], ctx.history[-1], k)


def account(model, execs, log, k):
    """Feed what a life did, according to its event log, into the reuse model."""
    cur, calls, ended = None, [], []
    for _, _, *ev in log:
        if ev[0] == "begin":
            cur, calls, ended = ev[1], [], []
        elif ev[0] == "start":
            calls.append((ev[1], ev[2]))
        elif ev[0] == "done":
            model.check(execs[cur], calls, f"life {k} execution {cur}")
            model.commit(execs[cur])
            cur = None
    if cur is not None:
        e = execs[cur]
        model.handed_on(e, calls)
        model.maybe_commit(e)


def shrink(plan):
    lives = plan["lives"]
    for k, lf in enumerate(lives):
        if lf.get("crash"):
            yield dict(plan, lives=lives[:k] + [{a: b for a, b in lf.items() if a != "crash"}] + lives[k + 1:])
    yield from cl.shrink_history(plan)
    for k, lf in enumerate(lives):
        if lf.get("log"):
            yield dict(plan, lives=lives[:k] + [dict(lf, log=False)] + lives[k + 1:])
    if plan["store"] != "disk":
        yield dict(plan, store="disk")
    yield from common.shrink_sched(plan)
