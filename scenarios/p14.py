"""P14: cache run records describe what really happened."""

import json
from collections import Counter

from simkit import flows, kernel, values, vfs
from simkit.kernel import Violation
from scenarios import cachelib as cl
from scenarios import common

ID = "P14"
FOCUS = cl.FOCUS


def preload():
    cl.preload()


def gen(rng, i, tier):
    deep = tier == "thorough" and rng.random() < 0.3
    store = rng.choice(["disk", "disk", "split", "memory"])
    flow = cl.gen_cache_flow(rng, fmt=store != "memory", par_prob=0.5, max_plain=4)
    lives = cl.gen_history(rng, flow, n_lives=(1, 1) if store == "memory" else (1, 3),
                           n_execs=(2, 5) if store == "memory" or deep else (1, 3), with_fail=0.2)
    if rng.random() < 0.3:
        # only what the executions themselves say may keep one driver for all of them
        for lf in lives:
            for e in lf["execs"]:
                e["fresh"] = False
    for lf in lives:
        lf["log"] = store != "memory" and rng.random() < 0.25
    return {"flow": flow, "lives": lives, "store": store, "sched": common.gen_sched(rng, 0.15)}


def cval(v):
    return repr(values.canon(v))


def events(dr, run_id, level="info"):
    out = []
    for key, evs in dr.cache.logs(run_id=run_id, level=level).items():
        for e in evs:
            out.append((e.node_name, e.task_id, e.event_type.value))
    return out


def run(plan, ctx):
    root = ctx.scratch + "/cache"
    flow = plan["flow"]
    runs = []  # over all lives: {"id", "exec": (life, exec)}
    model = []
    for k, lf in enumerate(plan["lives"]):
        def body(sim):
            vfs.attach(ctx.scratch)
            s = cl.Session(sim, flow, root, plan["store"], log_to_file=lf.get("log", False))
            per_driver, done = {}, []
            for j, e in enumerate(lf["execs"]):
                out, exc, probe, dr = s.execute(e)
                where = f"life {k} execution {j}"
                ok = cl.check_result(flow, e, out, exc, probe, where)
                ids = list(dr.cache.run_ids)
                old = per_driver.setdefault(id(dr), (dr, []))[1]
                if ids[:-1] != old or len(ids) != len(old) + 1 or dr.cache.last_run_id != ids[-1]:
                    raise Violation("run-ids", f"{where}: driver lists {ids} after {old}")
                old.append(ids[-1])
                rid = ids[-1]
                sim.event("run", rid)
                check_logs(dr, rid, e, ok, probe, where, flow)
                check_versions(dr, rid, e, ok, probe, where, flow)
                check_stored(dr.cache.metadata_store, dr.cache.result_store, rid, e, probe.calls, ok, flow, where, [])
                done.append((rid, ok, list(probe.calls)))
            for dr, ids in per_driver.values():
                if sorted(dr.cache.logs(level="debug")) != sorted(ids):
                    raise Violation("run-ids", f"life {k}: logs() knows {sorted(dr.cache.logs(level='debug'))}, runs were {ids}")
            if lf.get("log"):
                check_file(root if plan["store"] == "disk" else root + "/meta", per_driver.values(), k)
            if plan["store"] == "memory":
                check_all(s.stores[0], s.stores[1], runs, [(rid, k, j, ok, calls) for j, (rid, ok, calls) in enumerate(done)], plan)
            return done

        st, done = ctx.life(body, start_time=1000.0 * k)
        for j, (rid, ok, calls) in enumerate(done):
            runs.append((rid, k, j, ok, calls))

    if plan["store"] == "memory":
        return

    def reader(sim):
        """A later process reading the records."""
        from hamilton.caching.stores.file import FileResultStore
        from hamilton.caching.stores.sqlite import SQLiteMetadataStore

        vfs.attach(ctx.scratch)
        a, b = (root, root) if plan["store"] == "disk" else (root + "/meta", root + "/res")
        check_all(SQLiteMetadataStore(path=a), FileResultStore(path=b), [], runs, plan)

    ctx.life(reader, start_time=1000.0 * len(plan["lives"]))


def check_all(ms, rs, before, runs, plan):
    got = list(ms.get_run_ids())
    want = [r[0] for r in before] + [r[0] for r in runs]
    if got != want:
        raise Violation("run-ids", f"store lists runs {got}; they were {want}")
    if len(set(want)) != len(want):
        raise Violation("run-ids", f"run ids are not unique: {want}")
    if want and ms.last_run_id != want[-1]:
        raise Violation("run-ids", f"last_run_id {ms.last_run_id} is not {want[-1]}")
    for n, (rid, k, j, ok, calls) in enumerate(runs):
        e = plan["lives"][k]["execs"][j]
        later = [plan["lives"][r[1]]["execs"][r[2]] for r in runs[n + 1:]]
        check_stored(ms, rs, rid, e, calls, ok, plan["flow"], f"life {k} execution {j} read later", later)


def behaviors(flow, e):
    eff = cl.effective(flow, e)
    return {n["name"]: cl.behavior_of(n, e) for n in eff["nodes"]}


def check_logs(dr, rid, e, ok, probe, where, flow):
    for level in ("info", "debug"):
        flat = Counter((x.node_name, x.task_id, x.event_type.value) for x in dr.cache.logs(level=level).get(rid, []))
        grouped = dr.cache.logs(run_id=rid, level=level)
        by_key = Counter((x.node_name, x.task_id, x.event_type.value) for xs in grouped.values() for x in xs)
        if flat != by_key:
            raise Violation("logs", f"{where}: logs() and logs(run_id) differ: {list((flat - by_key) + (by_key - flat))[:3]}")
        for key, xs in grouped.items():
            for x in xs:
                if key != ((x.node_name, x.task_id) if x.task_id else x.node_name):
                    raise Violation("logs", f"{where}: event of {x.node_name} (task {x.task_id}) listed under {key!r}")
    ev = events(dr, rid)
    ex = Counter(n for n, t, x in ev if x == "execute_node")
    ge = Counter(n for n, t, x in ev if x == "get_result")
    fin = Counter(r[0] for r in probe.finished)
    failed = Counter(x.args[0].split("#")[0].split("@")[0] for x in probe.raised)
    by = {n["name"]: n for n in flow["nodes"]}
    for n in set(ex) | set(fin):
        want = fin[n] - failed[n]
        if ex[n] != want:
            raise Violation("execution-record", f"{where}: {n} was executed {want} times, the log says {ex[n]}")
    per = Counter((n, t) for n, t, x in ev if x in ("execute_node", "get_result"))
    bad = [x for x, c in per.items() if c != 1]
    if bad:
        raise Violation("execution-record", f"{where}: more than one record for {bad[:3]}")
    if ok:
        ref = cl.reference(flow, e)
        need = Counter()
        for (n, kw), c in ref.calls.items():
            need[n] += c
        for n in set(ge) | set(need):
            if ge[n] != need[n] - fin[n]:
                raise Violation("retrieval-record",
                                f"{where}: {n} was reused {need[n] - fin[n]} times, the log says {ge[n]}")
    else:
        fl = Counter(n for n, t, x in events(dr, rid, "debug") if x == "failed_execution")
        for n in failed:
            if by[n]["kind"] != "expand" and fl[n] < failed[n]:
                raise Violation("failure-record", f"{where}: {n} failed {failed[n]} times, the log says {fl[n]}")
        extra = set(fl) - set(failed)
        if extra:
            raise Violation("failure-record", f"{where}: failures logged for {sorted(extra)} which did not fail")


def check_versions(dr, rid, e, ok, probe, where, flow):
    beh = behaviors(flow, e)
    by = {n["name"]: n for n in flow["nodes"]}
    ref = cl.reference(flow, e)
    given = cl.typed_req(cl.effective(flow, e), e["req"])
    for kind in ("inputs", "overrides"):
        for n, v in given[kind].items():
            if kind == "inputs" and n in given["overrides"]:
                continue
            dv = dr.cache.get_data_version(run_id=rid, node_name=n)
            if dv != dr.cache.version_data(v):
                raise Violation("data-version", f"{where}: the version recorded for {n} ({kind}) is not that of its value: {dv!r}")
    if not ok:
        return
    have = {}
    for n, t, x in events(dr, rid):
        if beh.get(n) not in ("default", "recompute") or by[n]["kind"] == "expand":
            continue
        dv = dr.cache.get_data_version(run_id=rid, node_name=n, task_id=t)
        if not isinstance(dv, str):
            raise Violation("data-version", f"{where}: no data version for {n} (task {t}): {dv!r}")
        if not dr.cache.result_store.exists(dv):
            raise Violation("data-version", f"{where}: version {dv[:12]} of {n} (task {t}) is not in the store")
        have.setdefault(n, Counter())[cval(dr.cache.result_store.get(dv))] += 1
    for n, got in have.items():
        want = Counter(cval(v) for v in ref.computed[n])
        if got != want:
            raise Violation("data-version", f"{where}: the versions recorded for {n} load "
                                            f"{values.short(sorted(got))}, its values were {values.short(sorted(want))}")


def check_stored(ms, rs, rid, e, calls, ok, flow, where, later):
    beh = behaviors(flow, e)
    by = {n["name"]: n for n in flow["nodes"]}
    try:
        rows = ms.get_run(rid)
    except Exception as ex:
        raise Violation("run-record", f"{where}: get_run({rid}) raises {type(ex).__name__}: {ex}")
    got = Counter(r["node_name"] for r in rows)
    want = Counter(n for n, kw in calls if beh[n] in ("default", "recompute"))
    if got != want if ok else got - want:
        raise Violation("run-record", f"{where}: get_run lists {dict(got)}; executed and stored were {dict(want)}")
    if True:
        ref = cl.reference(flow, e)
        for r in rows:
            n = r["node_name"]
            if by[n]["kind"] == "expand":
                continue
            if ms.get(r["cache_key"]) != r["data_version"]:
                raise Violation("run-record", f"{where}: key of {n} gives another version than the run record")
            v = cval(rs.get(r["data_version"]))
            if v not in [cval(x) for x in ref.computed[n]]:
                over = [x["ext"].get(n) for x in later if x["ext"].get(n) != e["ext"].get(n)]
                if by[n].get("ext") and over:
                    raise Violation("record-overwritten",
                                    f"{where}: {n} reads an outside source and was recomputed later with another value; "
                                    f"the record of the earlier run now gives the later version")
                raise Violation("run-record", f"{where}: version recorded for {n} loads {values.short(v)}, "
                                              f"values were {values.short([cval(x) for x in ref.computed[n]])}")


def check_file(path, drs, k):
    import os

    with vfs._io_open(os.path.join(path, "cache_logs.jsonl")) as f:
        lines = f.read().splitlines()
    try:
        got = Counter((d["run_id"], d["node_name"], d["task_id"], d["event_type"]) for d in map(json.loads, lines))
    except ValueError as ex:
        raise Violation("log-file", f"life {k}: unreadable line in log file: {ex}")
    want = Counter()
    for dr, ids in drs:
        for rid, evs in dr.cache.logs(level="debug").items():
            for e in evs:
                want[(rid, e.node_name, e.task_id, e.event_type.value)] += 1
    runs = {w[0] for w in want}
    got = Counter({x: c for x, c in got.items() if x[0] in runs})
    if got != want:
        d = (got - want) + (want - got)
        raise Violation("log-file", f"life {k}: file and in-memory logs differ: {list(d)[:3]}")


def shrink(plan):
    yield from cl.shrink_history(plan)
    lives = plan["lives"]
    for k, lf in enumerate(lives):
        if lf.get("log"):
            yield dict(plan, lives=lives[:k] + [dict(lf, log=False)] + lives[k + 1:])
    if plan["store"] != "disk":
        yield dict(plan, store="disk")
    yield from common.shrink_sched(plan)
