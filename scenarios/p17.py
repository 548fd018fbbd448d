"""P17: the tracker reports exactly what each run did."""

import datetime
import gc
import threading
import time
import weakref
import zlib
from collections import Counter, defaultdict

from simkit import drivers, flows, kernel, values
from simkit.kernel import Violation
from scenarios import common, p15, sdklib

ID = "P17"
FOCUS = sdklib.FOCUS
EPS = 3e-6
TRACKER = [None]


class IdSpace:
    """id() as CPython allows it at worst: unique among live objects, reused as soon as possible."""

    def __init__(self):
        self.of, self.used = {}, set()

    def __call__(self, obj):
        real = id(obj)
        e = self.of.get(real)
        if e is not None and e[0]() is obj:
            return e[1]
        try:
            k = 1
            while k in self.used:
                k += 1

            def gone(_, real=real, k=k):
                self.used.discard(k)
                if real in self.of and self.of[real][1] == k:
                    del self.of[real]

            self.of[real] = (weakref.ref(obj, gone), k)
            self.used.add(k)
            return k
        except TypeError:
            return real


def preload():
    sdklib.preload()
    from hamilton_sdk import adapters

    adapters.id = IdSpace()


def gen_step(rng, flow):
    req = flows.gen_request(rng, flow, overrides_prob=0.25, config=False)
    return {"req": req}


def gen(rng, i, tier):
    fl, ex, fails = [], [], []
    for _ in range(rng.choice([1, 1, 2, 2])):
        f = flows.gen_flow(rng, par_prob=0.6, max_plain=5, max_width=4, rich=rng.random() < 0.3, wide=0.02)
        for n in f["nodes"]:
            if n["kind"] == "plain" and not n.get("fields") and rng.random() < 0.1:
                n["typ"] = rng.choice(["evil", "list", "dict", "str", "frame", "obj"])
        fl.append(f)
        ex.append(drivers.gen_exec(rng, f))
        fs = []
        if rng.random() < 0.45:
            pool = [n for n in f["nodes"] if n["kind"] != "field"]
            for n in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2]))):
                fs.append({"node": n["name"], "salt": rng.randrange(1 << 20), "mod": rng.choice([1, 2, 3]),
                           "exc": "NodeBoom" if rng.random() < 0.8 else rng.choice(sorted(flows.INTERRUPTS))})
        fails.append(fs)
    users = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(len(fl))
            steps.append(dict(gen_step(rng, fl[k]), flow=k, fresh=rng.random() < 0.5))
        users.append(steps)
    n_f = rng.choice([0, 0, 0, 1, 2, 3])
    return {"flows": fl, "execs": ex, "fails": fails, "users": users, "shared": rng.random() < 0.5,
            "faults": [{"at": rng.randrange(4), "kind": rng.choice(sdklib.FAULTS)} for _ in range(n_f)],
            "stall": rng.random() < 0.15, "latency": rng.choice([0, 0.05]), "sample": rng.choice([None] * 7 + [2, 3, 0.5]),
            "two": len(users) > 1 and rng.random() < 0.4, "sched": common.gen_sched(rng, 0.15)}


_OBS = []


def make_obs(pos, log):
    if not _OBS:
        _OBS.append(obs_class())
    o = _OBS[0]()
    o.pos, o.log = pos, log
    return o


def obs_class():
    from hamilton.lifecycle import base

    class Obs(base.BasePreNodeExecute, base.BasePostNodeExecute, base.BasePreGraphExecute):
        def pre_graph_execute(self, *, run_id, graph, final_vars, inputs, overrides):
            self.log.append((self.pos, "graph", run_id, None, None, time.time(), {"inputs": dict(inputs or {})}))

        def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
            self.log.append((self.pos, "pre", run_id, task_id, node_.name, time.time(), None))

        def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
            self.log.append((self.pos, "post", run_id, task_id, node_.name, time.time(),
                        {"success": success, "error": error, "result": result}))

    return Obs


def parse(ts):
    d = datetime.datetime.fromisoformat(ts)
    if d.tzinfo is None:
        d = d.replace(tzinfo=datetime.timezone.utc)
    return d.timestamp()


def run(plan, ctx):
    from hamilton_sdk import adapters

    probes, mods = [], []
    for k, f in enumerate(plan["flows"]):
        p = p15.Probe(f, fail=plan["fails"][k])
        probes.append(p)
        mods.append(flows.build_module(flows.source_for(f), p, name=f"sdkflow{k}", path=f"{ctx.scratch}/sdkflow{k}.py"))
    common.apply_granularity(ctx)
    adapters.id = IdSpace()
    log, errs, execs = [], [], []

    def body(sim):
        before = set(threading._active.values())
        srv = sdklib.Server(plan["faults"], latency=plan["latency"])
        sdklib.start(srv)
        busy = [len(plan["users"])]
        if plan.get("stall"):
            # updates are not answered before the dataflows are through
            srv.stall = lambda: busy[0] > 0
        trackers, sets = [], []
        for x in ("", "2") if plan.get("two") else ("",):
            tracker = adapters.HamiltonTracker(
                project_id=int("1" + x), username="user" + x, dag_name="dag" + x, api_key="key" + x,
                tags={"team": "t" + x}, hamilton_api_url="http://server", hamilton_ui_url="http://ui")
            tracker.special_parallel_sample_strategy = plan["sample"]
            trackers.append(tracker)
            sets.append([make_obs("A", log), tracker, make_obs("B", log)])

        def build(k, u):
            return drivers.build_driver(mods[k], plan["execs"][k], adapters=sets[u % len(sets)])[0]

        def sync(k):
            e = plan["execs"][k]
            return e["kind"] == "default" or (e["local"]["t"] == "sync" and e["remote"]["t"] == "sync")

        pools = [{}, {}]

        def user(u):
            own = {}
            shared = pools[u % len(trackers)]
            try:
                for j, st in enumerate(plan["users"][u]):
                    k = st["flow"]
                    req = st["req"]
                    marker = 10_000 + u * 100 + j
                    inputs = dict(req["inputs"])
                    inputs[sorted(plan["flows"][k]["inputs"])[0]] = marker
                    req = dict(req, inputs=inputs)
                    pool = shared if plan["shared"] and sync(k) else own
                    if st["fresh"] and pool is own:
                        pool.pop(k, None)
                        gc.collect()
                    if k not in pool:
                        pool[k] = build(k, u)
                    dr = pool[k]
                    rec = {"marker": marker, "flow": k, "as": "2" if u % len(trackers) else "", "final": list(req["final"]), "t0": time.time()}
                    execs.append(rec)
                    try:
                        out = dr.execute(list(req["final"]), inputs=dict(inputs), overrides=dict(req["overrides"]))
                        rec["ok"] = True
                    except flows.ANY as e:
                        rec["ok"] = False
                        if not any(e is x for x in probes[k].raised):
                            raise Violation("unexpected-error", f"execute raised {type(e).__name__}: {e}; "
                                            f"functions raised {probes[k].raised!r}")
                    rec["t1"] = time.time()
                    if rec["ok"]:
                        ref = flows.Ref(plan["flows"][k], req)
                        if values.canon(out) != values.canon(ref.result):
                            raise Violation("wrong-result", f"got {values.canon(out)} expected {values.canon(ref.result)}")
                    del dr
            except Violation as v:
                errs.append(v)
            except Exception as e:
                errs.append(Violation("tracker-error", f"user {u}: {type(e).__name__}: {e}"))
            finally:
                busy[0] -= 1

        ts = [threading.Thread(target=user, args=(u,)) for u in range(len(plan["users"]))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for tracker in trackers:
            tracker.stop()
        e2 = sdklib.process_exit(before)
        if errs:
            raise errs[0]
        if e2:
            raise Violation("exit-error", f"{type(e2[0]).__name__}: {e2[0]}")
        for rec in execs:
            check(plan, rec, srv, log)

    ctx.simulate(body)


def check(plan, rec, srv, log):
    flow = plan["flows"][rec["flow"]]
    key = sorted(flow["inputs"])[0]
    names = {n["name"] for n in flow["nodes"]}
    who = f"execution {rec['marker']}"
    mine = [r for r in srv.log if r["route"] == "dag_runs" and r["method"] == "POST"
            and r["body"]["inputs"].get(key) == rec["marker"]]
    if len(mine) != 1:
        raise Violation("run-not-registered-once", f"{who}: {len(mine)} runs registered")
    post = mine[0]
    rid = post["id"]
    if post["body"]["outputs"] != rec["final"]:
        raise Violation("wrong-run-record", f"{who}: outputs {post['body']['outputs']}, requested {rec['final']}")
    timed = not plan.get("jump")  # stepping clocks make timestamps incomparable
    if timed and not rec["t0"] - EPS <= parse(post["body"]["run_start_time"]) <= rec["t1"] + EPS:
        raise Violation("wrong-run-time", f"{who}: start {post['body']['run_start_time']} not in {rec['t0']}..{rec['t1']}")
    tid = int(post["q"]["dag_template_id"])
    tmpl = [r for r in srv.log if r["route"] == "dag_templates" and r.get("id") == tid]
    have = {n["name"] for n in tmpl[0]["body"]["nodes"]} if tmpl else set()
    for r in srv.log if "as" in rec else ():
        about = r["q"].get("dag_run_id") if r["route"] == "dag_runs_bulk" else None
        if r is post or r in tmpl[:1] or about == str(rid) or (r["method"] == "PUT" and r["path"][1:2] == [str(rid)]):
            if r["headers"].get("x-api-user") != "user" + rec["as"] or r["headers"].get("x-api-key") != "key" + rec["as"]:
                raise Violation("wrong-account", f"{who}: sent as {r['headers']}, tracked as user{rec['as']}")
    if "as" in rec and tmpl and tmpl[0]["body"]["name"] != "dag" + rec["as"] or "as" in rec and post["body"]["tags"].get("team") != "t" + rec["as"]:
        raise Violation("wrong-template", f"{who}: attributed to dataflow {tmpl[0]['body']['name']} with tags "
                        f"{post['body']['tags']}, was dag{rec['as']}")
    if not names <= have:
        raise Violation("wrong-template", f"{who}: attributed to a dataflow without {sorted(names - have)[:4]}")
    ends = [r for r in srv.log if r["route"] == "dag_runs" and r["method"] == "PUT" and r["path"][1] == str(rid)]
    if len(ends) != 1:
        raise Violation("run-not-closed-once", f"{who}: {len(ends)} end records")
    want = "SUCCESS" if rec["ok"] else "FAILURE"
    if ends[0]["body"]["run_status"] != want:
        raise Violation("wrong-run-status", f"{who}: reported {ends[0]['body']['run_status']}, was {want}")
    end = parse(ends[0]["body"]["run_end_time"])
    if timed and not rec["t0"] - EPS <= end <= rec["t1"] + EPS:
        raise Violation("wrong-run-time", f"{who}: end {end} not in {rec['t0']}..{rec['t1']}")
    # node updates
    run_ids = {e[2] for e in log if e[1] == "graph" and e[6]["inputs"].get(key) == rec["marker"]}
    obs = defaultdict(dict)
    for pos, kind, run_id, task, node, t, data in log:
        if run_id in run_ids and kind != "graph":
            obs[(task, node)][(pos, kind)] = (t, data)
    got, attrs, lost = {}, defaultdict(list), False
    for r in srv.log:
        if r["route"] == "dag_runs_bulk" and int(r["q"]["dag_run_id"]) == rid:
            if not r["processed"]:
                lost = lost or r["failed"]
                continue
            for x in r["body"]["task_updates"]:
                got[x["node_name"]] = {**got.get(x["node_name"], {}), **x}
            for a in r["body"]["attributes"]:
                attrs[a["node_name"]].append(a)
    expect = {}
    for (task, node), o in obs.items():
        expect[f"{task}-{node}" if task is not None else node] = (task, node, o)
    for name, x in got.items():
        if name not in expect:
            raise Violation("unknown-node", f"{who}: update for {name}, which did not run in it ({x['status']})")
    for name, (task, node, o) in expect.items():
        pre0, pre1, post0, post1 = (o.get(k) for k in (("A", "pre"), ("B", "pre"), ("A", "post"), ("B", "post")))
        failed = post1 is not None and not post1[1]["success"]
        sampled = True
        if plan["sample"] and task and task.startswith("expand-") and "block" in task:
            sampled = None if isinstance(plan["sample"], float) else int(task.split(".")[1]) % plan["sample"] == 0
        if sampled is False and not failed:
            if name in got:
                raise Violation("out-of-sample", f"{who}: {name} reported though not sampled")
            continue
        x = got.get(name)
        if x is None:
            if lost or sampled is None:
                continue
            raise Violation("node-not-reported", f"{who}: {name} ran but was not reported")
        if x["node_template_name"] != node:
            raise Violation("wrong-node", f"{who}: {name} reported as {x['node_template_name']}")
        if pre1 is None:
            continue
        if timed and not pre0[0] - EPS <= parse(x["start_time"]) <= pre1[0] + EPS:
            raise Violation("wrong-start", f"{who}: {name} started in {pre0[0]}..{pre1[0]}, reported {parse(x['start_time'])}")
        if lost:
            continue
        if post1 is None:
            if x["status"] != "RUNNING" and post0 is None:
                raise Violation("wrong-status", f"{who}: {name} did not finish, reported {x['status']}")
            continue
        want = "SUCCESS" if post1[1]["success"] else "FAILURE"
        if x["status"] != want:
            raise Violation("wrong-status", f"{who}: {name} was {want}, reported {x['status']}")
        if x["end_time"] is None or timed and not post0[0] - EPS <= parse(x["end_time"]) <= post1[0] + EPS:
            raise Violation("wrong-end", f"{who}: {name} ended in {post0[0]}..{post1[0]}, reported {x['end_time']}")
        mine = attrs.get(name, [])
        cnt = Counter(a["name"] for a in mine)
        if want == "FAILURE":
            text = "".join(sum((a["value"]["stack_trace"] for a in mine if a["name"] == "stack_trace"), []))
            if cnt["stack_trace"] != 1 or str(post1[1]["error"]) not in text or cnt["result_summary"]:
                raise Violation("wrong-error-report", f"{who}: {name} raised {post1[1]['error']!r}; reported {dict(cnt)} {text[-200:]}")
        else:
            if cnt["result_summary"] != 1 or cnt["stack_trace"]:
                raise Violation("wrong-result-report", f"{who}: {name} succeeded; reported {dict(cnt)}")
            a = [a for a in mine if a["name"] == "result_summary"][0]
            if type(post1[1]["result"]) is int and a["value"].get("value") != post1[1]["result"]:
                raise Violation("wrong-result-report", f"{who}: {name} returned {post1[1]['result']}, reported {a['value']}")


def shrink(plan):
    if plan.get("two"):
        yield dict(plan, two=False)
    us = plan["users"]
    if len(us) > 1:
        for k in range(len(us)):
            yield dict(plan, users=us[:k] + us[k + 1:])
    for k, s in enumerate(us):
        if len(s) > 1:
            for j in range(len(s)):
                yield dict(plan, users=us[:k] + [s[:j] + s[j + 1:]] + us[k + 1:])
    if plan["faults"]:
        yield dict(plan, faults=plan["faults"][1:])
    if plan["sample"]:
        yield dict(plan, sample=None)
    if plan.get("stall"):
        yield dict(plan, stall=False)
    for k in range(len(plan["fails"])):
        if plan["fails"][k]:
            yield dict(plan, fails=plan["fails"][:k] + [plan["fails"][k][1:]] + plan["fails"][k + 1:])
    for k, f in enumerate(plan["flows"]):
        for j, n in enumerate(f["nodes"]):
            if n["kind"] == "expand" and n["width"] > 2:
                f2 = dict(f, nodes=f["nodes"][:j] + [dict(n, width=n["width"] - 1)] + f["nodes"][j + 1:])
                yield dict(plan, flows=plan["flows"][:k] + [f2] + plan["flows"][k + 1:])
        for e in drivers.shrink_exec(plan["execs"][k]):
            yield dict(plan, execs=plan["execs"][:k] + [e] + plan["execs"][k + 1:])
        for u, s in enumerate(us):
            for j, st in enumerate(s):
                if st["flow"] == k:
                    if st["req"]["overrides"]:
                        yield dict(plan, users=us[:u] + [s[:j] + [dict(st, req=dict(st["req"], overrides={}))] + s[j + 1:]] + us[u + 1:])
                    if len(st["req"]["final"]) > 1:
                        yield dict(plan, users=us[:u] + [s[:j] + [dict(st, req=dict(st["req"], final=st["req"]["final"][:-1]))] + s[j + 1:]] + us[u + 1:])
    yield from common.shrink_sched(plan)
