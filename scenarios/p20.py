"""P20: bundled observing adapters never change an execution and report what happened."""

import io
import re
import threading
from collections import Counter

from simkit import drivers, flows, kernel, values
from simkit.kernel import Violation
from scenarios import common, p01, p04

ID = "P20"
FOCUS = common.CORE_FOCUS + (common.H + "plugins/h_tqdm.py", common.H + "plugins/h_opentelemetry.py",
                             common.H + "plugins/h_ddog.py", common.H + "plugins/h_slack.py")
OBS = ["print", "bar", "otel", "ddog", "slow", "types", "slack"]


def preload():
    common.preload_core()
    import sys
    import types

    import tqdm

    # the Datadog client itself is a stand-in (its agent would be out of process)
    dd = types.ModuleType("ddtrace")
    dd.Span, dd.tracer, dd.context = Span, Tracer(), types.SimpleNamespace(Context=dict)
    sys.modules["ddtrace"] = dd
    from hamilton.plugins import h_ddog, h_opentelemetry, h_slack, h_tqdm  # noqa
    from opentelemetry.sdk.trace import TracerProvider  # noqa

    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock(threading.RLock())


def gen(rng, i, tier):
    obs = rng.sample(OBS, rng.choice([1, 1, 2, 3, 7]))
    plan = p04.gen(rng, i, tier, odd=0)
    flow = plan["flow"]
    if rng.random() < 0.3 and "types" not in obs:
        for n in flow["nodes"]:
            if n["kind"] == "plain" and not n.get("fields") and rng.random() < 0.5:
                n["typ"] = rng.choice(["evil", "str", "list", "obj", "frame", "series", "optint", "ndarray"])
        plan["req"]["overrides"] = {}
    elif rng.random() < 0.3:
        for n in flow["nodes"]:
            if n["kind"] in ("plain", "block", "collect") and not n.get("fields") and rng.random() < 0.5:
                n["typ"] = rng.choice(["str", "list", "obj", "dict", "optint", "tuple"])
        plan["req"]["overrides"] = {}
    for f in plan["fail"]:
        if f.get("after") is None:
            f["nth"] = None
    # without overrides of the whole request nothing would run
    plan["obs"] = obs
    plan["opts"] = {"verbosity": rng.choice([1, 2]), "filter": rng.choice([None, None, "fn", "list", "str"]),
                    "links": rng.random() < 0.5, "width": rng.choice([3, 10, 50]),
                    "mean": rng.choice([0.0, 0.05]), "slack": rng.choice([None, "error", "timeout", "slow"])}
    r = rng.random()
    plan["mode"] = "seq" if r < 0.5 else "conc" if r < 0.8 else "two"
    plan["steps"] = [rng.random() < 0.35 for _ in range(rng.choice([1, 2, 3]))]  # which executions meet failures
    if plan["mode"] == "two":
        o = p04.gen(rng, i, tier, odd=0)
        plan["flow2"] = o["flow"]
        plan["req2"] = o["req"]
        plan["exec2"] = drivers.gen_exec(rng, o["flow"])
    for e in (plan["exec"], plan.get("exec2") or {}):
        for k in ("local", "remote"):
            if e.get(k, {}).get("t") == "remote":
                e[k]["ser"] = False
    plan.pop("rounds", None)
    return plan


class Span:
    """A recording tracer span."""

    def __init__(self, tr, name, parent):
        self.tr, self.name, self.parent = tr, name, parent
        self.ends = []
        self.tags = {}
        self.links = []
        self.context = self

    def set_tags(self, tags):
        self.tags.update(tags)

    def link_span(self, context, attributes=None):
        self.links.append((context, attributes))

    def __exit__(self, et, ev, tb):
        self.ends.append(ev)


class Tracer:
    def __init__(self):
        self.spans = []

    def current_trace_context(self):
        return None

    def start_span(self, name, child_of=None, activate=False, service=None):
        s = Span(self, name, child_of)
        self.spans.append(s)
        kernel.SIM.yield_point()
        return s


def make_recorder():
    from hamilton.lifecycle import GraphExecutionHook, NodeExecutionHook, TaskExecutionHook

    class Recorder(NodeExecutionHook, GraphExecutionHook, TaskExecutionHook):
        def __init__(self):
            self.nodes = []  # (run, task, node, success, error)
            self.started = []
            self.graphs = []
            self.tasks = []
            self.when = {}

        def run_before_task_execution(self, **k):
            pass

        def run_after_task_execution(self, *, run_id, task_id, success, **k):
            self.tasks.append((task_id, "OK" if success else "ERROR"))

        def run_before_graph_execution(self, *, run_id, **k):
            self.graphs.append([run_id, None])

        def run_after_graph_execution(self, *, run_id, success, error, **k):
            for g in self.graphs:
                if g[0] == run_id:
                    g[1] = (success, error)

        def run_before_node_execution(self, *, node_name, task_id, run_id, **k):
            self.started.append((run_id, task_id, node_name))
            self.when[kernel.SIM.current.tid] = [kernel.SIM.now, None]

        def run_after_node_execution(self, *, node_name, task_id, run_id, success, error, **k):
            self.nodes.append((run_id, task_id, node_name, success, error))
            self.when[kernel.SIM.current.tid][1] = kernel.SIM.now

    return Recorder()


class SlackDown(Exception):
    pass


class Slack:
    def __init__(self, mode):
        self.mode = mode
        self.sent = []

    def chat_postMessage(self, channel, text):
        kernel.SIM.yield_point()
        self.sent.append(text)
        if self.mode == "slow":
            kernel.SIM.sleep(5)
        if self.mode == "timeout":
            kernel.SIM.count("fault:slack_timeout")
            kernel.SIM.sleep(30)
            raise TimeoutError("slack unreachable")
        if self.mode == "error":
            kernel.SIM.count("fault:slack_error")
            raise SlackDown("not_authed")


def build_observers(plan):
    from hamilton.lifecycle import default
    from hamilton.plugins import h_ddog, h_opentelemetry, h_slack, h_tqdm

    o = plan["opts"]
    rec = make_recorder()
    parts, adapters = {}, [rec]
    keep = None
    if o["filter"]:
        names = [n["name"] for n in plan["flow"]["nodes"]][::2]
        if o["filter"] == "str":
            names = names[-1:]
        keep = {"list": names, "str": names[0]}.get(o["filter"]) or (lambda nm, tags: nm in names)
        parts["kept"] = set(names)
    for k in plan["obs"]:
        if k == "print":
            lines, began = [], {}
            parts[k], parts["times"] = lines, []

            def out(line, lines=lines, began=began, times=parts["times"]):
                sim = kernel.SIM
                if line.startswith("Executing"):
                    began[sim.current.tid] = sim.now  # a thread executes one node at a time
                else:
                    t0, t1 = rec.when[sim.current.tid]
                    times.append((line, t1 - began[sim.current.tid], sim.now - t0))
                lines.append(line)

            a = default.PrintLn(verbosity=o["verbosity"], node_filter=keep, print_fn=out)
        elif k == "bar":
            out = io.StringIO()
            a = h_tqdm.ProgressBar(desc="d", max_node_name_width=o["width"], file=out)
            parts[k] = a
        elif k == "otel":
            from opentelemetry.sdk.trace import SpanProcessor, TracerProvider

            class Proc(SpanProcessor):
                def __init__(self):
                    self.started, self.ended = [], []

                def on_start(self, span, parent_context=None):
                    self.started.append(span)

                def on_end(self, span):
                    self.ended.append(span)

            p = Proc()
            tp = TracerProvider(shutdown_on_exit=False)
            tp.add_span_processor(p)
            a = h_opentelemetry.OpenTelemetryTracer(tracer=tp.get_tracer("t"))
            parts[k] = p
        elif k == "ddog":
            h_ddog.tracer = tr = Tracer()
            a = h_ddog.DDOGTracer("root", include_causal_links=o["links"])
            parts[k] = tr
            parts["ddog_impl"] = a._impl
        elif k == "slow":
            a = default.SlowDownYouMoveTooFast(o["mean"], o["mean"])
        elif k == "types":
            a = default.FunctionInputOutputTypeChecker()
        elif k == "slack":
            a = h_slack.SlackNotifier.__new__(h_slack.SlackNotifier)
            a.slack_client = parts[k] = Slack(o["slack"])
            a.channel, a.kwargs = "c", {}
        adapters.append(a)
    return rec, parts, adapters


def run(plan, ctx):
    from hamilton.plugins import h_ddog

    real_tracer = h_ddog.tracer
    flow = plan["flow"]
    probe = flows.Probe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    common.apply_granularity(ctx)
    rec, parts, adapters = build_observers(plan)
    dr, _ = drivers.build_driver(mod, plan["exec"], config=plan["req"].get("config"), adapters=adapters)
    jobs = [(dr, flow, plan["req"], probe)]
    if plan["mode"] == "conc":  # one module, one set of adapters, a driver per client (executors are not shared)
        dr2, _ = drivers.build_driver(mod, plan["exec"], config=plan["req"].get("config"), adapters=adapters)
        jobs.append((dr2, flow, plan["req"], probe))
    if plan["mode"] == "two":
        probe2 = flows.Probe(plan["flow2"])
        mod2 = flows.build_module(flows.source_for(plan["flow2"]), probe2)
        dr2, _ = drivers.build_driver(mod2, plan["exec2"], config=plan["req2"].get("config"), adapters=adapters)
        jobs.append((dr2, plan["flow2"], plan["req2"], probe2))
    refs = [flows.Ref(j[1], j[2]) for j in jobs]
    want = [canon(r.result) for r in refs]

    def once(j, failing):
        d, fl, req, pr = jobs[j]
        pr.fail = plan["fail"] if failing else []
        try:
            out = d.execute(list(req["final"]), inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
        except flows.ANY as e:
            if not failing:
                raise Violation("unexpected-error", f"observers {plan['obs']}: {type(e).__name__}: {msg(e)}")
            if not any(e is x for x in pr.raised):
                raise Violation("wrong-error", f"observers {plan['obs']}: execute raised {type(e).__name__} "
                                f"{msg(e)}; functions raised {len(pr.raised)} others")
            return
        if failing and p04.must_fail(plan, refs[0]):
            raise Violation("failure-swallowed", f"observers {plan['obs']}: functions raised but execute returned")
        if canon(out) != want[j]:
            raise Violation("wrong-result", f"observers {plan['obs']}: got {values.short(canon(out))} "
                            f"expected {values.short(want[j])}")

    def body(sim):
        if plan["mode"] == "seq":
            for k, f in enumerate(plan["steps"]):
                marks = (len(rec.nodes), )
                once(0, f)
                if "bar" in parts:
                    bar = parts["bar"].progress_bar
                    if bar is None:
                        raise Violation("bar-missing", "no progress bar was made")
                    if bar.n != len(rec.nodes) - marks[0]:
                        raise Violation("bar-count", f"{bar.n} counted, {len(rec.nodes) - marks[0]} nodes executed")
            return
        # several clients at once; failures hit all or none so that each outcome is decidable
        failing = plan["mode"] == "conc" and plan["steps"][0]
        errs = []

        def client(j):
            for _ in plan["steps"]:
                try:
                    once(j, failing)
                except Violation as v:
                    errs.append(v)
                    return

        ts = [threading.Thread(target=client, args=(j,)) for j in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]

    try:
        ctx.simulate(body)
    finally:
        h_ddog.tracer = real_tracer
    check_reports(plan, rec, parts)


def msg(e):
    try:
        return str(e)[:200]
    except Exception:
        return "?"


def canon(d):
    return {k: values.canon(v) for k, v in d.items()}


LINE = re.compile(r"(Executing|Finished debugging) node: (\S+?)(?:\.| in (\S+?)\. Status: (Success|Failure)\.)(?:\s|$)")


def check_reports(plan, rec, parts):
    if Counter(rec.started) != Counter(x[:3] for x in rec.nodes):
        raise Violation("hooks-unpaired", f"{len(rec.started)} started, {len(rec.nodes)} finished")

    def uid(t, n):
        return n if t is None else f"{t}:{n}"

    if "print" in parts:
        kept = parts.get("kept")
        want = Counter()
        for r, t, n, ok, e in rec.nodes:
            if kept is None or n in kept:
                want["Executing", uid(t, n), None] += 1
                want["Finished debugging", uid(t, n), "Success" if ok else "Failure"] += 1
        got = Counter()
        for ln in parts["print"]:
            m = LINE.match(ln)
            if not m:
                raise Violation("print-garbled", repr(ln[:120]))
            got[m.group(1), m.group(2), m.group(4)] += 1
        for ln, lo, hi in parts["times"]:
            shown = LINE.match(ln).group(3)
            v = float(re.match(r"[-\d.e+]+", shown).group()) * {"μs": 1e-6, "ms": 1e-3, "s": 1}[
                re.sub(r"^[-\d.e+]+", "", shown)]
            if not lo * 0.99 - 0.002 <= v <= hi * 1.01 + 0.002:
                raise Violation("print-time", f"{ln[:100]!r}; it took {lo:.6f}s to {hi:.6f}s")
        if got != want:
            raise Violation("print-wrong", f"missing {dict(want - got)} extra {dict(got - want)}")
    if "otel" in parts:
        p = parts["otel"]
        if len(p.started) != len(p.ended):
            raise Violation("spans-open", f"{len(p.started)} started {len(p.ended)} ended")
        got = Counter((s.name, s.status.status_code.name) for s in p.ended)
        want = Counter(rec.tasks)
        for r, t, n, ok, e in rec.nodes:
            want[n, "OK" if ok else "ERROR"] += 1
        for r, (ok, e) in rec.graphs:
            want[r, "OK" if ok else "ERROR"] += 1
        if got != want:
            raise Violation("spans-wrong", f"missing {dict(want - got)} extra {dict(got - want)}")
        tnames = {t for t, _ in rec.tasks}
        byid = {s.context.span_id: s for s in p.ended}
        runs = {r for r, _ in rec.graphs}
        nodes = {n for _, _, n, _, _ in rec.nodes}
        for s in p.ended:
            if s.name in nodes and s.name not in tnames:
                par = byid.get(s.parent.span_id) if s.parent else None
                if par is None or par.name not in (tnames | runs):
                    raise Violation("span-parent", f"span of node {s.name} is under {par and par.name}")
    if "ddog" in parts:
        tr, impl = parts["ddog"], parts["ddog_impl"]
        bad = [s.name for s in tr.spans if len(s.ends) != 1]
        if bad:
            raise Violation("ddog-spans", f"not ended exactly once: {bad[:5]}")
        want = Counter((uid(t, n), ok) for r, t, n, ok, e in rec.nodes)
        got = Counter((s.name, s.ends[0] is None) for s in tr.spans if "hamilton.hamilton.node_name" in s.tags)
        if want != got:
            raise Violation("ddog-wrong", f"missing {dict(want - got)} extra {dict(got - want)}")
        roots = [s for s in tr.spans if s.parent is None]
        if len(roots) != len(rec.graphs) or any(s.name != "root" for s in roots):
            raise Violation("ddog-roots", f"{[s.name for s in roots]} for {len(rec.graphs)} executions")

        def root(s):
            while s.parent is not None:
                s = s.parent
            return s

        per = Counter()
        for s in tr.spans:
            if "hamilton.hamilton.node_name" in s.tags:
                per[id(root(s))] += 1
                for c, a in s.links:
                    if root(c) is not root(s):
                        raise Violation("ddog-links", f"{s.name} linked to another execution's span")
        if sorted(per.values()) != sorted(Counter(x[0] for x in rec.nodes).values()):
            raise Violation("ddog-mixed", f"spans per execution {sorted(per.values())}")
        if impl.run_span_cache or impl.node_span_cache or impl.task_span_cache:
            raise Violation("ddog-leak", "finished executions remain in the caches")
    if "slack" in parts:
        want = Counter(n for _, _, n, ok, _ in rec.nodes if not ok)
        got = Counter()
        for t in parts["slack"].sent:
            m = re.match(r"\*Error Executing Node: `([^`]+)`", t)
            got[m.group(1) if m else t[:40]] += 1
        if want != got:
            raise Violation("slack-wrong", f"missing {dict(want - got)} extra {dict(got - want)}")


def shrink(plan):
    if len(plan["obs"]) > 1:
        for k in range(len(plan["obs"])):
            yield dict(plan, obs=plan["obs"][:k] + plan["obs"][k + 1:])
    if len(plan["steps"]) > 1:
        for k in range(len(plan["steps"])):
            yield dict(plan, steps=plan["steps"][:k] + plan["steps"][k + 1:])
    if plan["mode"] != "seq":
        yield dict(plan, mode="seq")
    for n in plan["flow"]["nodes"]:
        if n.get("typ"):
            fl = dict(plan["flow"], nodes=[dict(x, typ=None) if x is n else x for x in plan["flow"]["nodes"]])
            yield dict(plan, flow=fl)
    for p in p04.shrink(dict(plan, rounds=1)):
        p.pop("rounds", None)
        yield p
