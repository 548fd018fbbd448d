"""P08: async hooks and failures are delivered faithfully."""

import asyncio
from collections import Counter

from simkit import aio, flows, hooks, kernel
from simkit.kernel import Violation
from scenarios import common, p07

ID = "P08"
FOCUS = common.CORE_FOCUS
preload = p07.preload


def gen(rng, i, tier):
    flow = p07.async_flow(rng, odd=0.2)
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        req = flows.gen_request(rng, flow, overrides_prob=0.3, config=False)
        for x in req["inputs"]:
            req["inputs"][x] = rng.randrange(100)
        c = {"req": req, "delay": rng.choice([0, 0, 0.01]), "n": rng.choice([1, 2])}
        if rng.random() < 0.4:
            need = sorted({n for n, _ in flows.Ref(flow, req).calls})
            if need:
                c["fail"] = [rng.choice(need) for _ in range(rng.choice([1, 1, 2]))]
        elif rng.random() < 0.25:
            c["cancel"] = rng.choice([0.0005, 0.005, 0.2, 0.6, 1.2])
        clients.append(c)
    recs = []
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(["async", "async", "sync"])
        kinds = [k for k in ("graph", "node") if rng.random() < 0.8] or ["graph"]
        if t == "sync":
            kinds = ["graph"]
        recs.append({"type": t, "kinds": kinds, "waits": [rng.choice([None, 0, 0.001, 0.2]) for _ in range(4)],
                     "construct": rng.random() < 0.5, "dup": rng.random() < 0.2})
    return {"flow": flow, "clients": clients, "recs": recs, "builder": rng.random() < 0.5,
            "sched": common.gen_sched(rng), "two": len(clients) > 1 and rng.random() < 0.5}


class HProbe(p07.AProbe):
    def __init__(self, flow, ev):
        super().__init__(flow)
        self.ev = ev

    def _boom(self, c, name):
        if c is not None and name in self.fail_for.get(c[0], ()):
            e = flows.NodeBoom(f"{name} for {c}")
            self.raised.append((c, e))
            kernel.SIM.count("fault:node_error")
            raise e

    async def anode(self, name, kwargs, ver=0):
        self.ev.append(("fn", "start", p07.CLIENT.get(), name, dict(kw=flows.freeze(kwargs))))
        try:
            out = await super().anode(name, kwargs, ver)
        except (Exception, asyncio.CancelledError) as e:
            self.ev.append(("fn", "end", p07.CLIENT.get(), name, dict(ok=False, err=e, res=None)))
            raise
        self.ev.append(("fn", "end", p07.CLIENT.get(), name, dict(ok=True, err=None, res=out)))
        return out

    def node(self, name, kwargs, ver=0):
        self.ev.append(("fn", "start", p07.CLIENT.get(), name, dict(kw=flows.freeze(kwargs))))
        try:
            out = super().node(name, kwargs, ver)
        except Exception as e:
            self.ev.append(("fn", "end", p07.CLIENT.get(), name, dict(ok=False, err=e, res=None)))
            raise
        self.ev.append(("fn", "end", p07.CLIENT.get(), name, dict(ok=True, err=None, res=out)))
        return out


_CLASSES = {}


def make_async_recorder(ev, name, r):
    key = (r["type"], tuple(r["kinds"]), bool(r.get("construct")))
    if key not in _CLASSES:
        _CLASSES[key] = recorder_class(r)
    rec = _CLASSES[key]()
    rec.ev, rec.label, rec.waits = ev, name, r["waits"]
    return rec


def recorder_class(r):
    from hamilton.lifecycle import base

    bases, d = [], {}

    async def pause(self, k):
        if self.waits[k] is not None:
            await asyncio.sleep(self.waits[k])

    if r["type"] == "sync":
        bases += [base.BasePreGraphExecute, base.BasePostGraphExecute]

        def pre_graph_execute(self, *, run_id, graph, final_vars, inputs, overrides):
            self.ev.append((self.label, "pre_graph", p07.CLIENT.get(), None,
                       dict(run=run_id, final=list(final_vars), inputs=dict(inputs), overrides=dict(overrides or {}))))

        def post_graph_execute(self, *, run_id, graph, success, error, results):
            self.ev.append((self.label, "post_graph", p07.CLIENT.get(), None,
                       dict(run=run_id, ok=success, err=error, res=None if results is None else dict(results))))

        d.update(pre_graph_execute=pre_graph_execute, post_graph_execute=post_graph_execute)
    else:
        if "graph" in r["kinds"]:
            bases += [base.BasePreGraphExecuteAsync, base.BasePostGraphExecuteAsync]

            async def pre_graph_execute(self, *, run_id, graph, final_vars, inputs, overrides):
                await pause(self, 0)
                self.ev.append((self.label, "pre_graph", p07.CLIENT.get(), None,
                           dict(run=run_id, final=list(final_vars), inputs=dict(inputs), overrides=dict(overrides or {}))))

            async def post_graph_execute(self, *, run_id, graph, success, error, results):
                self.ev.append((self.label, "post_graph", p07.CLIENT.get(), None,
                           dict(run=run_id, ok=success, err=error, res=None if results is None else dict(results))))
                await pause(self, 1)

            d.update(pre_graph_execute=pre_graph_execute, post_graph_execute=post_graph_execute)
        if "node" in r["kinds"]:
            bases += [base.BasePreNodeExecuteAsync, base.BasePostNodeExecuteAsync]

            async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
                await pause(self, 2)
                self.ev.append((self.label, "pre_node", p07.CLIENT.get(), node_.name, dict(run=run_id, kw=flows.freeze(kwargs))))

            async def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
                self.ev.append((self.label, "post_node", p07.CLIENT.get(), node_.name,
                           dict(run=run_id, kw=flows.freeze(kwargs), ok=success, err=error, res=result)))
                await pause(self, 3)

            d.update(pre_node_execute=pre_node_execute, post_node_execute=post_node_execute)
    if r.get("construct"):
        if r["type"] == "sync":
            bases.append(base.BasePostGraphConstruct)

            def post_graph_construct(self, *, graph, modules, config):
                self.ev.append((self.label, "construct", None, None, {}))
        else:
            bases.append(base.BasePostGraphConstructAsync)

            async def post_graph_construct(self, *, graph, modules, config):
                await pause(self, 0)
                self.ev.append((self.label, "construct", None, None, {}))

        d["post_graph_construct"] = post_graph_construct
    return type("ARec_" + r["type"], tuple(bases), d)


def run(plan, ctx):
    flow = plan["flow"]
    ev = []
    probe = HProbe(flow, ev)
    mod = flows.build_module(flows.source_for(flow), probe)
    errs = []
    outcomes = {}

    def body(sim):
        async def main():
            adapters = [make_async_recorder(ev, f"r{k}", r) for k, r in enumerate(plan["recs"])]
            # the same adapter given twice is one adapter
            adapters += [a for a, r in zip(adapters, plan["recs"]) if r.get("dup")]
            dr = dr2 = await p07.make_driver(mod, plan["builder"], adapters)
            if plan.get("two"):
                dr2 = await p07.make_driver(mod, plan["builder"], [
                    make_async_recorder(ev, f"s{k}", r) for k, r in enumerate(plan["recs"])])
            if len(plan["recs"]) > 1:
                await dr.ainit()  # initialising again does nothing

            async def client(k, c):
                await asyncio.sleep(c["delay"])
                req = c["req"]
                mine = dr2 if k % 2 else dr
                for j in range(c["n"]):
                    # the last call of a failing client is clean: the driver must stay usable
                    if c.get("fail") and j == 0:
                        probe.fail_for[k] = c["fail"]
                    else:
                        probe.fail_for.pop(k, None)
                    p07.CLIENT.set((k, j))
                    try:
                        coro = mine.execute(list(req["final"]), inputs=dict(req["inputs"]),
                                            overrides=dict(req["overrides"]))
                        if c.get("cancel") is not None and j == 0:
                            t = asyncio.ensure_future(coro)
                            asyncio.get_running_loop().call_later(c["cancel"], t.cancel)
                            coro = t
                        out = await coro
                        outcomes[(k, j)] = ("ok", out, len(ev))
                    except flows.NodeBoom as e:
                        outcomes[(k, j)] = ("err", e, len(ev))
                    except asyncio.CancelledError as e:
                        if c.get("cancel") is None or j:
                            raise Violation("foreign-cancel", f"client {k} was cancelled by another call")
                        sim.count("fault:cancel")
                        outcomes[(k, j)] = ("cancel", e, len(ev))
                    except BaseException as e:
                        errs.append(Violation("unexpected-error", f"client {k}: {type(e).__name__}: {e}"))
                        return
                    if outcomes[(k, j)][0] != "ok" and j == 0:
                        # let the functions still in flight finish before changing what fails
                        while not all_done((k, j)):
                            await asyncio.sleep(0.5)

            def all_done(cid):
                s = Counter(e[3] for e in ev if e[0] == "fn" and e[1] == "start" and e[2] == cid)
                f = Counter(e[3] for e in ev if e[0] == "fn" and e[1] == "end" and e[2] == cid)
                started_late = sim.now
                return s == f and quiet(cid, started_late)

            last = {}

            def quiet(cid, now):
                n = len([e for e in ev if e[2] == cid])
                if last.get(cid, (None, 0))[0] != n:
                    last[cid] = (n, now)
                    return False
                return now - last[cid][1] > 10.0

            await asyncio.gather(*[client(k, c) for k, c in enumerate(plan["clients"])])

        _, unhandled, left = aio.run(main())
        for e in ev:
            sim.event(*[str(x) for x in e[:4]])
        if left:
            raise Violation("left-running", f"{len(left)} tasks never finish")
        if errs:
            raise errs[0]
        check(plan, ev, outcomes, probe)

    ctx.simulate(body)


def check(plan, ev, outcomes, probe):
    V = Violation
    flow = plan["flow"]
    runs_seen = {}
    for ri, r in [(f"{x}{k}", r) for x in ("rs" if plan.get("two") else "r") for k, r in enumerate(plan["recs"])]:
        at = [i for i, e in enumerate(ev) if e[0] == ri and e[1] == "construct"]
        if len(at) != bool(r.get("construct")):
            raise V("hook-construct", f"{ri}: {len(at)} after-construct events")
        if at and any(e[2] is not None for e in ev[:at[0]]):
            raise V("hook-nesting", "an execution began before the after-construct event")
    for k, c in enumerate(plan["clients"]):
        for j in range(c["n"]):
            cid = (k, j)
            st, val, at = outcomes[cid]
            ref = flows.Ref(flow, c["req"])
            mine = [(gi, e) for gi, e in enumerate(ev) if e[2] == cid]
            fails = bool(c.get("fail")) and j == 0
            if st == "ok" and (fails or not flows.same(val, ref.result)):
                raise V("wrong-result", f"client {cid}: {flows.show(val)} expected {flows.show(ref.result)} fails={fails}")
            if st == "err" and not any(val is x for cc, x in probe.raised if cc == cid):
                raise V("foreign-failure", f"client {cid}: {val!r}")
            rids = {e[4]["run"] for _, e in mine if "run" in e[4]}
            if len(rids) > 1:
                raise V("hook-run-id", f"{cid} has run ids {rids}")
            for r in rids:
                if r in runs_seen:
                    raise V("hook-run-id", f"{cid} and {runs_seen[r]} share a run id")
                runs_seen[r] = cid
            starts = {e[3]: (gi, e[4]) for gi, e in mine if e[0] == "fn" and e[1] == "start"}
            ends = {e[3]: (gi, e[4]) for gi, e in mine if e[0] == "fn" and e[1] == "end"}
            own, other = ("s", "r") if plan.get("two") and k % 2 else ("r", "s")
            if any(e[0].startswith(other) for _, e in mine):
                raise V("hook-dispatch", f"client {cid}: events went to another driver's adapters")
            for ri, r in enumerate(plan["recs"]):
                rn = f"{own}{ri}"
                his = [(gi, e) for gi, e in mine if e[0] == rn]
                if "graph" in r["kinds"]:
                    pre = [(gi, e) for gi, e in his if e[1] == "pre_graph"]
                    post = [(gi, e) for gi, e in his if e[1] == "post_graph"]
                    if st == "cancel" and not pre and not post:
                        continue  # cancelled before it got that far
                    if st == "cancel" and len(pre) == 1 and not post and not starts:
                        continue  # cancelled while the before-graph hooks ran
                    if len(pre) != 1 or len(post) != 1:
                        raise V("hook-graph", f"{rn}: {len(pre)} before-graph and {len(post)} after-graph events")
                    if starts and min(g for g, _ in starts.values()) < pre[0][0]:
                        raise V("hook-nesting", "function called before the before-graph event")
                    if any(gi < pre[0][0] for gi, e in mine if e[1].endswith("node")):
                        raise V("hook-nesting", "node event before the before-graph event")
                    if st == "ok" and ends and max(g for g, _ in ends.values()) > post[0][0]:
                        raise V("hook-nesting", "function finished after the after-graph event")
                    if st == "ok" and any(gi > post[0][0] for gi, e in mine if e[1].endswith("node")):
                        raise V("hook-nesting", "node event after the after-graph event")
                    if post[0][0] >= at:
                        raise V("hook-nesting", "execute ended before the after-graph event")
                    d = pre[0][1][4]
                    if d["final"] != c["req"]["final"] or d["inputs"] != c["req"]["inputs"] or d["overrides"] != c["req"]["overrides"]:
                        raise V("hook-wrong-inputs", f"before-graph got {d}")
                    d = post[0][1][4]
                    if st == "cancel" and d["ok"]:
                        # cancelled while the after-graph hooks ran: the run itself had succeeded
                        if not flows.same(d["res"], ref.result):
                            raise V("hook-wrong-outcome", f"after-graph {d}, execute was cancelled")
                        continue
                    if d["ok"] != (st == "ok") or (
                            st != "cancel" and d["err"] is not (None if st == "ok" else val)):
                        raise V("hook-wrong-outcome", f"after-graph {d}, execute {st} {val!r}")
                    if st == "ok" and d["res"] != val:
                        raise V("hook-wrong-result", f"after-graph {d['res']}, execute returned {flows.show(val)}")
                if "node" in r["kinds"]:
                    pres = Counter(e[3] for _, e in his if e[1] == "pre_node")
                    posts = Counter(e[3] for _, e in his if e[1] == "post_node")
                    if pres != Counter(list(starts)) and not (
                            st == "cancel" and not Counter(list(starts)) - pres):
                        raise V("hook-missing", f"{rn}: before-node events {pres}, functions called {list(starts)}")
                    if posts != Counter(list(ends)) and not (
                            st == "cancel" and not Counter(list(ends)) - posts):
                        raise V("hook-missing", f"{rn}: after-node events {posts}, functions finished {list(ends)}")
                    for gi, e in his:
                        if e[3] not in starts:
                            # cancelled between the before-node hooks and the call
                            if e[1] == "post_node" and e[4]["ok"]:
                                raise V("hook-wrong-outcome", f"{e[3]} reported as success without being called")
                            continue
                        if e[1] == "pre_node":
                            if gi > starts[e[3]][0]:
                                raise V("hook-nesting", f"before-node of {e[3]} came after the call")
                            if not hooks.same_args(e[4]["kw"], starts[e[3]][1]["kw"]):
                                raise V("hook-wrong-inputs", f"{e[3]}: told {e[4]['kw']} got {starts[e[3]][1]['kw']}")
                        elif e[1] == "post_node":
                            if gi < ends[e[3]][0]:
                                raise V("hook-nesting", f"after-node of {e[3]} came before the call ended")
                            x = ends[e[3]][1]
                            if e[4]["ok"] != x["ok"] or (e[4]["err"] is not x["err"] and not
                                                         isinstance(x["err"], asyncio.CancelledError)):
                                raise V("hook-wrong-outcome", f"{e[3]}: told ok={e[4]['ok']} err={e[4]['err']!r}, was {x}")
                            if e[4]["res"] != x["res"]:
                                raise V("hook-wrong-result", f"{e[3]}: told {e[4]['res']}, was {x['res']}")
                            if not hooks.same_args(e[4]["kw"], starts[e[3]][1]["kw"]):
                                raise V("hook-wrong-inputs", f"{e[3]}: after-node told {e[4]['kw']}")


def shrink(plan):
    if plan.get("two"):
        yield dict(plan, two=False)
    if len(plan["recs"]) > 1:
        for k in range(len(plan["recs"])):
            yield dict(plan, recs=plan["recs"][:k] + plan["recs"][k + 1:])
    for k, r in enumerate(plan["recs"]):
        for key in ("construct", "dup"):
            if r.get(key):
                yield dict(plan, recs=plan["recs"][:k] + [dict(r, **{key: False})] + plan["recs"][k + 1:])
        if any(w is not None for w in r["waits"]):
            x = list(plan["recs"])
            x[k] = dict(r, waits=[None] * 4)
            yield dict(plan, recs=x)
    yield from p07.shrink(dict(plan, mode="general"))
