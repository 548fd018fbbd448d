"""P26: deleting, clearing and moving cached data is safe."""

import re
import threading

from simkit import vfs
from simkit.kernel import Violation
from scenarios import cachelib as cl
from scenarios import common, p11

ID = "P26"
FOCUS = cl.FOCUS


def preload():
    cl.preload()


DISK = ["del_result", "del_result", "del_meta", "del_meta", "clear_results", "clear_meta", "clear_both",
        "expire", "expire", "look", "elsewhere"]
MEM = DISK + ["persist", "reload"]


def gen_ops(rng, names, p):
    if rng.random() > p:
        return []
    return [{"op": rng.choice(names), "pick": rng.randrange(1 << 16), "own": rng.random() < 0.6}
            for _ in range(rng.choice([1, 1, 2, 3]))]


def gen(rng, i, tier):
    store = rng.choice(["disk", "disk", "split", "memory", "memory"])
    flow = cl.gen_cache_flow(rng, max_plain=4, par_prob=0.4, rich=True, fmt=store != "memory")
    if store != "memory":
        flow["procs"] = 0.15
    lives = cl.gen_history(rng, flow, n_lives=(1, 3), n_execs=(1, 4))
    if store == "memory" and rng.random() < 0.3:
        # results persisted from memory serve another process from disk
        for k, lf in enumerate(lives):
            if k and rng.random() < 0.5:
                lf["as"] = "disk"
    for lf in lives:
        mem = lf.get("as", store) == "memory"
        for e in lf["execs"]:
            e["ops"] = gen_ops(rng, MEM if mem else DISK, 0.6)
            if not mem and rng.random() < 0.15:
                e["beside"] = [{"op": rng.choice(["del_result", "del_meta", "expire", "look"]),
                                "pick": rng.randrange(1 << 16), "own": False} for _ in range(rng.randint(1, 3))]
        if not mem and store != "memory" and rng.random() < 0.25:
            lf["crash"] = p11.gen_crash(rng)
    if rng.random() < 0.7:
        last = lives[-1]["execs"][-1]
        lives.append({"execs": [dict(last, ops=[], fresh=True)] * 2, **({"as": lives[-1]["as"]} if "as" in lives[-1] else {})})
        lives[-1]["execs"][0].pop("beside", None)
    return {"flow": flow, "lives": lives, "store": store, "sched": common.gen_sched(rng, 0.1)}


def open_stores(session, store, root):
    from hamilton.caching.stores.file import FileResultStore
    from hamilton.caching.stores.sqlite import SQLiteMetadataStore

    if store == "memory":
        return session.stores
    sub = ("/meta", "/res") if store == "split" else ("", "")
    return SQLiteMetadataStore(path=root + sub[0]), FileResultStore(path=root + sub[1])


def entries(ms):
    """What the metadata store lists, without duplicates, in a stable order."""
    out = {}
    for rid in ms.get_run_ids():
        for r in ms.get_run(rid):
            out.setdefault((r["cache_key"], r["data_version"], r["node_name"]), None)
    return list(out)


def apply(sim, op, ms, rs, root):
    kind = op["op"]
    names = set()
    if kind in ("del_result", "del_meta"):
        es = entries(ms)
        if not es:
            return
        key, dv, name = es[op["pick"] % len(es)]
        sim.event("op", kind, tuple(sorted({n for k, d, n in es if (d == dv if kind == "del_result" else k == key)})))
        if kind == "del_result":
            rs.delete(dv)
            if rs.exists(dv):
                raise Violation("not-deleted", f"result {dv} of {name} still there after delete()")
        else:
            ms.delete(key)
            if ms.exists(key) or ms.get(key) is not None:
                raise Violation("not-deleted", f"metadata of {name} still there after delete()")
        return
    sim.event("op", kind, ())
    if kind in ("clear_results", "clear_both"):
        dvs = [d for _, d, _ in entries(ms)]
        rs.delete_all()
        left = [d for d in dvs if rs.exists(d)]
        if left:
            raise Violation("not-deleted", f"results {left} still there after delete_all()")
    if kind in ("clear_meta", "clear_both"):
        keys = [k for k, _, _ in entries(ms)]
        ms.delete_all()
        if ms.size or any(ms.exists(k) for k in keys):
            raise Violation("not-deleted", f"{ms.size} entries after delete_all()")
    if kind.startswith("clear"):
        sim.event("op", "done", (kind[6:] + "1",))
    if kind == "expire":
        rs.delete_expired()
    if kind == "look":
        for key, dv, name in entries(ms):
            if not ms.exists(key) or ms.get(key) is None:
                raise Violation("records-inconsistent", f"{name}: listed by get_run() but not found by get()")


def elsewhere(store, root):
    """Another cache is cleared; nothing of it is this cache's."""
    from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore

    ms, rs = (InMemoryMetadataStore(), InMemoryResultStore()) if store == "memory" else open_stores(None, store, root + "2")
    ms.delete_all()
    rs.delete_all()


def guarded(fn, *a):
    try:
        return fn(*a)
    except Violation:
        raise
    except Exception as ex:
        raise Violation("maintenance-error", f"{type(ex).__name__}: {ex}")


def persist(session, root):
    from hamilton.caching.stores.file import FileResultStore
    from hamilton.caching.stores.sqlite import SQLiteMetadataStore

    # a persisted copy replaces an earlier one
    session.stores[0].persist_to(SQLiteMetadataStore(path=root))
    session.stores[1].persist_to(FileResultStore(path=root))


def reload(session, root):
    from hamilton.caching.stores.file import FileResultStore
    from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
    from hamilton.caching.stores.sqlite import SQLiteMetadataStore

    ms = SQLiteMetadataStore(path=root)
    session.stores = (InMemoryMetadataStore.load_from(ms),
                      InMemoryResultStore.load_from(FileResultStore(path=root), metadata_store=ms))
    session.drivers.clear()


def run(plan, ctx):
    root = ctx.scratch + "/cache"
    flow = plan["flow"]
    model = cl.Model(flow)
    memo = {"disk": set(), "maybe": set()}  # what the persisted copy must know
    for k, lf in enumerate(plan["lives"]):
        crash = lf.get("crash") or {}
        store = lf.get("as", plan["store"])

        def body(sim):
            vfs.attach(ctx.scratch, [crash["io"]] if "io" in crash else [])
            s = cl.Session(sim, flow, root, store)
            if store == "memory":
                s.cache_kwargs({"beh": {}})
                if k:
                    guarded(reload, s, root)
                    sim.event("op", "reload", ())
            dr = None

            def maintain(e):
                nonlocal dr
                for op in e.get("ops", ()):
                    if op["op"] == "persist":
                        sim.event("op", "persist", ())
                        persist(s, root)
                        continue
                    if op["op"] == "elsewhere":
                        elsewhere(store, root)
                        continue
                    if op["op"] == "reload":
                        persist(s, root)
                        reload(s, root)
                        sim.event("op", "persist", ())
                        sim.event("op", "reload", ())
                        continue
                    ms, rs = (dr.cache.metadata_store, dr.cache.result_store) if op["own"] and dr is not None and s.drivers \
                        else open_stores(s, store, root)
                    apply(sim, op, ms, rs, root)

            for j, e in enumerate(lf["execs"]):
                guarded(maintain, e)
                sim.event("begin", j)
                th, errs = None, []
                if e.get("beside"):
                    def other():
                        try:
                            ms, rs = open_stores(s, store, root)
                            for op in e["beside"]:
                                apply(sim, op, ms, rs, root)
                                sim.yield_point()
                        except Violation as v:
                            if v.kind != "not-deleted" and v.kind != "records-inconsistent":
                                errs.append(v)  # the execution may have put it there again
                        except Exception as ex:
                            errs.append(Violation("maintenance-error", f"{type(ex).__name__}: {ex}"))

                    th = threading.Thread(target=other)
                    th.start()
                out, exc, probe, dr = s.execute(e)
                if th is not None:
                    th.join()
                if errs:
                    raise errs[0]
                cl.check_result(flow, e, out, exc, probe, f"life {k} execution {j}")
                sim.event("done", j)
            if store == "memory":
                sim.event("op", "persist", ())
                guarded(persist, s, root)
            return None

        try:
            ctx.life(body, start_time=1000.0 * k, crash_at=crash.get("step"))
        except Violation:
            raise
        account(plan, model, memo, lf, ctx.history[-1], k, store)


def account(plan, model, memo, lf, log, k, store):
    cur, calls, loose = None, [], set()
    if plan["store"] == "memory" and store == "disk":
        model.stored = set(memo["disk"])
        model.maybe |= memo["maybe"]
    for _, _, *ev in log:
        if ev[0] == "begin":
            cur, calls, loose = ev[1], [], set()
        elif ev[0] == "start":
            calls.append((ev[1], ev[2]))
        elif ev[0] == "op":
            # (a loader consists of several nodes, named after it)
            kind, names = ev[1], {t for nm in ev[2] for t in re.findall(r"[a-z]+\d+", nm)}
            if kind in ("del_result", "del_meta"):
                model.maybe |= {x for x in model.stored if x[0] in names}
                model.stored = {x for x in model.stored if x[0] not in names}
                if cur is not None:
                    loose |= names
            elif kind.startswith("clear"):
                # (the process may die in the middle; and when only the results go, equal results
                # of other functions may fill in for them)
                model.maybe |= model.stored
                model.stored.clear()
            elif kind == "done" and names & {"meta1", "both1"}:
                model.maybe.clear()
            elif kind == "persist":
                memo["disk"] |= model.stored
                memo["maybe"] |= model.maybe
            elif kind == "reload":
                model.stored = set(memo["disk"])
                model.maybe |= memo["maybe"]
        elif ev[0] == "done":
            e = lf["execs"][cur]
            if loose:
                model.maybe_commit(e)
            model.check(e, calls, f"life {k} execution {cur}")
            before = set(model.stored)
            model.commit(e)
            if loose:
                model.stored = {x for x in model.stored if x in before or x[0] not in loose}
                model.stored = {x for x in model.stored if x[0] not in loose}
            cur = None
    if cur is not None:
        e = lf["execs"][cur]
        model.handed_on(e, calls)
        model.stored = {x for x in model.stored if x[0] not in loose}
        model.maybe_commit(e)
    if plan["store"] == "memory" and store == "disk":
        memo["disk"] = set(model.stored)
        memo["maybe"] |= model.maybe


def shrink(plan):
    lives = plan["lives"]
    for k, lf in enumerate(lives):
        def rep(lf2):
            return dict(plan, lives=lives[:k] + [lf2] + lives[k + 1:])
        if lf.get("crash"):
            yield rep({a: b for a, b in lf.items() if a != "crash"})
        for j, e in enumerate(lf["execs"]):
            def repe(e2):
                return rep(dict(lf, execs=lf["execs"][:j] + [e2] + lf["execs"][j + 1:]))
            if e.get("beside"):
                yield repe({a: b for a, b in e.items() if a != "beside"})
            for q in range(len(e.get("ops", ()))):
                yield repe(dict(e, ops=e["ops"][:q] + e["ops"][q + 1:]))
    yield from cl.shrink_history(plan)
    yield from common.shrink_sched(plan)
