"""P10: caching reuses unchanged work and honours cache behaviors."""

from simkit import vfs
from simkit.kernel import Violation
from scenarios import cachelib as cl
from scenarios import common

ID = "P10"
FOCUS = cl.FOCUS


def preload():
    cl.preload()


def gen(rng, i, tier):
    deep = tier == "thorough" and rng.random() < 0.3
    store = rng.choice(["disk", "disk", "disk", "split", "memory"])
    if rng.random() < 0.06:
        return {"mode": "refresh", "store": store, "ext": [rng.randrange(3) for _ in range(rng.randint(2, 5))],
                "beh": [rng.choice(["recompute", "default"]) for _ in range(5)],
                "lives": rng.choice([1, 2, 3]) if store != "memory" else 1,
                "sched": common.gen_sched(rng, 0.1)}
    flow = cl.gen_cache_flow(rng, fmt=store != "memory", rich=True, big=True)
    if store != "memory":
        flow["procs"] = 0.15
    lives = cl.gen_history(rng, flow, n_lives=(1, 1) if store == "memory" else (1, 4 if deep else 3),
                           n_execs=(2, 6) if store == "memory" or deep else (1, 4), with_fail=0.08)
    deco_behaviors(rng, flow)
    if rng.random() < 0.2:  # two caches, used in turns
        for lf in lives:
            for e in lf["execs"]:
                e["dir"] = rng.randrange(2)
    return {"mode": "history", "flow": flow, "lives": lives, "store": store, "sched": common.gen_sched(rng, 0.1)}


def deco_behaviors(rng, flow):
    """Some behaviors come from the @cache decorator."""
    for n in flow["nodes"]:
        if n["kind"] in ("plain", "block", "collect") and not n.get("deco") and not n.get("ext") \
                and not n.get("loader") and not n.get("fields") \
                and rng.random() < 0.1:
            b = rng.choice(["recompute", "disable", "default"] + (["ignore"] if n.get("irrelevant") else []))
            n["deco"] = f'@_cache(behavior="{b}")'
            n["tagbeh"] = b


def run(plan, ctx):
    root = ctx.scratch + "/cache"
    if plan["mode"] == "refresh":
        return run_refresh(plan, ctx, root)
    flow = plan["flow"]
    models = [cl.Model(flow), cl.Model(flow)]
    for k, lf in enumerate(plan["lives"]):
        def body(sim):
            vfs.attach(ctx.scratch)
            ss = [cl.Session(sim, flow, d, plan["store"]) for d in (root, root + "2")]
            res = []
            for j, e in enumerate(lf["execs"]):
                out, exc, probe, dr = ss[e.get("dir", 0)].execute(e)
                if exc is not None and not any(exc is x for x in probe.raised):
                    raise Violation("unexpected-error", f"life {k} execution {j}: {type(exc).__name__}: {exc}")
                res.append((exc is None, list(probe.calls), list(probe.finished)))
            return res

        st, res = ctx.life(body, start_time=1000.0 * k)
        for j, (ok, calls, finished) in enumerate(res):
            e = lf["execs"][j]
            model = models[e.get("dir", 0)]
            if ok:
                model.check(e, calls, f"life {k} execution {j}")
                model.commit(e)
            else:
                model.maybe_commit(e)


def run_refresh(plan, ctx, root):
    """A function reading something outside the dataflow; recomputing refreshes what is stored."""
    from hamilton import driver
    from simkit import flows

    src = "def src(path: str) -> int:\n    return _H.read()\n\ndef use(src: int) -> int:\n    return _H.use(src)\n"
    state = {"stored": None}
    seen = set()
    n = len(plan["ext"])
    cuts = [n] if plan["lives"] == 1 else sorted({max(1, n * (q + 1) // plan["lives"]) for q in range(plan["lives"])})
    lo = 0
    for hi in cuts:
        steps = list(range(lo, hi))
        lo = hi
        if not steps:
            continue

        def body(sim):
            vfs.attach(ctx.scratch)

            class P:
                def read(self):
                    self.reads += 1
                    return self.value

                def use(self, v):
                    self.uses.append(v)
                    return v * 10

            p = P()
            mod = flows.build_module(src, p)
            e0 = {"beh": {}, "exec": {"kind": "default"}}
            s = cl.Session(sim, None, root, plan["store"])
            res = []
            for q in steps:
                p.value, p.reads, p.uses = plan["ext"][q], 0, []
                kw = s.cache_kwargs(e0)
                if plan["beh"][q] == "recompute":
                    kw["recompute"] = ["src"]
                dr = driver.Builder().with_modules(mod).with_cache(**kw).build()
                out = dr.execute(["use", "src"], inputs={"path": "x"})
                res.append((q, dict(out), p.reads, list(p.uses)))
            return res

        st, res = ctx.life(body)
        for q, out, reads, uses in res:
            if plan["beh"][q] == "recompute":
                want, wreads = plan["ext"][q], 1
            elif state["stored"] is None:
                want, wreads = plan["ext"][q], 1
            else:
                want, wreads = state["stored"], 0
            if reads != wreads:
                raise Violation("behavior-not-honoured", f"execution {q} ({plan['beh'][q]}): source read {reads} times instead of {wreads}")
            if out != {"use": want * 10, "src": want}:
                raise Violation("recomputed-not-stored",
                                f"execution {q} ({plan['beh'][q]}): got {out}; the value stored last is {want}")
            if uses != ([] if want in seen else [want]):
                raise Violation("not-reused", f"execution {q}: use called with {uses}, known inputs {sorted(seen)}")
            seen.add(want)
            state["stored"] = want


def shrink(plan):
    if plan["mode"] == "refresh":
        for k in range(len(plan["ext"])):
            if len(plan["ext"]) > 1:
                yield dict(plan, ext=plan["ext"][:k] + plan["ext"][k + 1:], beh=plan["beh"][:k] + plan["beh"][k + 1:])
        if plan["lives"] > 1:
            yield dict(plan, lives=1)
        return
    yield from cl.shrink_history(plan)
    if plan["store"] != "disk":
        yield dict(plan, store="disk")
    yield from common.shrink_sched(plan)
