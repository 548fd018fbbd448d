"""P12: storage faults never turn into wrong cached results."""

import os

from simkit import kernel, vfs
from simkit.kernel import Violation
from scenarios import cachelib as cl
from scenarios import common

ID = "P12"
FOCUS = cl.FOCUS

FILE_OPS = {"open_r": ["EIO", "EACCES", "vanish", "EMFILE"], "open_w": ["EACCES", "ENOSPC", "EMFILE"],
            "read": ["EIO"], "write": ["EIO", "ENOSPC", "short"], "close": ["EIO", "ENOSPC"],
            "replace": ["EIO", "ENOSPC"], "mkdir": ["EACCES", "ENOSPC"], "stat": ["EACCES", "EIO"],
            "unlink": ["EIO"], "db": ["ioerr", "full", "locked", "readonly"],
            "db_commit": ["ioerr", "full", "locked"], "db_connect": ["ioerr"]}


def preload():
    cl.preload()


def gen_fault(rng):
    op = rng.choice(["open_r", "open_r", "read", "read", "open_w", "write", "write", "close", "replace", "replace",
                     "mkdir", "stat", "unlink", "db", "db", "db", "db_commit", "db_connect"])
    f = {"op": op, "nth": int(rng.triangular(0, 12, 1)), "what": rng.choice(FILE_OPS[op])}
    if f["what"] == "short":
        f["frac"] = rng.choice([0, 0.1, 0.5, 0.95])
    if rng.random() < 0.25:
        f["from"], f["to"] = f["nth"], f["nth"] + rng.choice([2, 5, 1000])
    return f


def gen(rng, i, tier):
    deep = tier == "thorough" and rng.random() < 0.3
    store = rng.choice(["disk", "disk", "split"])
    flow = cl.gen_cache_flow(rng, max_plain=4, par_prob=0.5, rich=True)
    if store != "memory":
        flow["procs"] = 0.15
    lives = cl.gen_history(rng, flow, n_lives=(1, 4 if deep else 3), n_execs=(2, 5 if deep else 4))
    for lf in lives:
        for e in lf["execs"]:
            r = rng.random()
            if r < 0.45:
                e["faults"] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
            if rng.random() < 0.35:
                e["damage"] = [{"pick": rng.randrange(1 << 16), "how": rng.choice(["delete", "delete", "empty", "truncate", "garbage"]),
                                "frac": rng.choice([0.1, 0.5, 0.9, 0.999])} for _ in range(rng.choice([1, 1, 2, 30]))]
        lf["log"] = rng.random() < 0.15
    return {"flow": flow, "lives": lives, "store": store, "sched": common.gen_sched(rng, 0.1)}


def result_files(root):
    out = []
    for d, dn, fs in os.walk(root):
        dn.sort()
        out += [os.path.join(d, f) for f in sorted(fs) if not f.startswith("metadata_store.db")
                and not f.endswith(".jsonl")]
    return out


def run(plan, ctx):
    root = ctx.scratch + "/cache"
    flow = plan["flow"]
    for k, lf in enumerate(plan["lives"]):
        def body(sim):
            st = vfs.attach(ctx.scratch)
            s = cl.Session(sim, flow, root, plan["store"], log_to_file=lf.get("log", False))
            for j, e in enumerate(lf["execs"]):
                if e.get("damage"):
                    st.on = False
                    files = result_files(root)
                    for d in e["damage"]:
                        if not files:
                            break
                        p = files.pop(d["pick"] % len(files))
                        if vfs.damage(p, d["how"], d["frac"]):
                            sim.count("fault:result_" + d["how"])
                            sim.event("damage", d["how"])
                    st.on = True
                st.n, st.total, st.hit = {}, 0, []
                st.faults = list(e.get("faults", ()))
                out, exc, probe, dr = s.execute(e)
                hit = list(st.hit)
                st.faults = []
                where = f"life {k} execution {j}" + (f" (faults {hit})" if hit else "")
                if exc is not None and hit:
                    sim.event("failed", type(exc).__name__)
                    sim.count("failed_by_fault")
                    continue
                cl.check_result(flow, e, out, exc, probe, where)
                sim.event("done", k, j)
                if hit:
                    sim.count("succeeded_despite_fault")
            # the storage works again
            j, e = len(lf["execs"]) - 1, lf["execs"][-1]
            for again in (False, True):
                e2 = dict(e, fresh=again)
                out, exc, probe, dr = s.execute(e2)
                cl.check_result(flow, e2, out, exc, probe, f"life {k}, storage works again")

        ctx.life(body, start_time=1000.0 * k)


def shrink(plan):
    lives = plan["lives"]
    for k, lf in enumerate(lives):
        for j, e in enumerate(lf["execs"]):
            for key in ("faults", "damage"):
                for n in range(len(e.get(key, ()))):
                    e2 = dict(e, **{key: e[key][:n] + e[key][n + 1:]})
                    yield dict(plan, lives=lives[:k] + [dict(lf, execs=lf["execs"][:j] + [e2] + lf["execs"][j + 1:])] + lives[k + 1:])
                for n, f in enumerate(e.get("faults", ())):
                    if "from" in f:
                        f2 = {a: b for a, b in f.items() if a not in ("from", "to")}
                        e2 = dict(e, faults=e["faults"][:n] + [f2] + e["faults"][n + 1:])
                        yield dict(plan, lives=lives[:k] + [dict(lf, execs=lf["execs"][:j] + [e2] + lf["execs"][j + 1:])] + lives[k + 1:])
    yield from cl.shrink_history(plan)
    for k, lf in enumerate(lives):
        if lf.get("log"):
            yield dict(plan, lives=lives[:k] + [dict(lf, log=False)] + lives[k + 1:])
    if plan["store"] != "disk":
        yield dict(plan, store="disk")
    yield from common.shrink_sched(plan)
