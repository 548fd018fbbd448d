"""Recording lifecycle adapters and the protocol automaton for their event traces."""

from simkit import kernel
from simkit.kernel import Violation
from simkit.flows import DEFAULT_OPT, freeze


def fz(v):
    if isinstance(v, list):
        return ("list", tuple(fz(x) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple(sorted((k, fz(x)) for k, x in v.items())))
    return v


class Trace:
    def __init__(self):
        self.ev = []  # (tid, source, kind, data)

    def add(self, source, kind, **data):
        sim = kernel.SIM
        self.ev.append((sim.current.tid, source, kind, data))
        sim.event("hook", source, kind, data.get("node"), data.get("task"))
        sim.yield_point()


_CLASSES = {}


def make_recorder(trace, name, kinds, style="api"):
    """An adapter implementing the hook classes in ``kinds`` (subset of graph, node, task)."""
    key = (tuple(sorted(kinds)), style)
    if key not in _CLASSES:
        _CLASSES[key] = recorder_class(kinds, style)
    rec = _CLASSES[key]()
    rec.to, rec.label = trace, name
    return rec


def recorder_class(kinds, style):
    from hamilton.lifecycle import api, base

    bases = []
    d = {}
    if "graph" in kinds:
        if style == "api":
            bases.append(api.GraphExecutionHook)

            def run_before_graph_execution(self, *, graph, final_vars, inputs, overrides,
                                           execution_path, run_id, **kw):
                self.to.add(self.label, "pre_graph", run=run_id, final=list(final_vars), inputs=dict(inputs),
                          overrides=dict(overrides or {}), path=sorted(execution_path))

            def run_after_graph_execution(self, *, graph, success, error, results, run_id, **kw):
                self.to.add(self.label, "post_graph", run=run_id, success=success, error=error,
                          results=None if results is None else fz(dict(results)))

            d.update(run_before_graph_execution=run_before_graph_execution,
                     run_after_graph_execution=run_after_graph_execution)
        else:
            bases += [base.BasePreGraphExecute, base.BasePostGraphExecute]

            def pre_graph_execute(self, *, run_id, graph, final_vars, inputs, overrides):
                self.to.add(self.label, "pre_graph", run=run_id, final=list(final_vars), inputs=dict(inputs),
                          overrides=dict(overrides or {}), path=None)

            def post_graph_execute(self, *, run_id, graph, success, error, results):
                self.to.add(self.label, "post_graph", run=run_id, success=success, error=error,
                          results=None if results is None else fz(dict(results)))

            d.update(pre_graph_execute=pre_graph_execute, post_graph_execute=post_graph_execute)
    if "task" in kinds:
        if style == "api":
            bases.append(api.TaskExecutionHook)

            def run_before_task_execution(self, *, task_id, run_id, nodes, inputs, overrides, **kw):
                self.to.add(self.label, "pre_task", run=run_id, task=task_id,
                          nodes=sorted(n.name for n in nodes))

            def run_after_task_execution(self, *, task_id, run_id, nodes, results, success, error, **kw):
                self.to.add(self.label, "post_task", run=run_id, task=task_id, success=success, error=error,
                          results=None if results is None else {k: fz(v) for k, v in results.items()},
                          nodes=sorted(n.name for n in nodes))

            d.update(run_before_task_execution=run_before_task_execution,
                     run_after_task_execution=run_after_task_execution)
        else:
            bases += [base.BasePreTaskExecute, base.BasePostTaskExecute]

            def pre_task_execute(self, *, run_id, task_id, nodes, inputs, overrides):
                self.to.add(self.label, "pre_task", run=run_id, task=task_id,
                          nodes=sorted(n.name for n in nodes))

            def post_task_execute(self, *, run_id, task_id, nodes, results, success, error):
                self.to.add(self.label, "post_task", run=run_id, task=task_id, success=success, error=error,
                          results=None if results is None else {k: fz(v) for k, v in results.items()},
                          nodes=sorted(n.name for n in nodes))

            d.update(pre_task_execute=pre_task_execute, post_task_execute=post_task_execute)
    if "node" in kinds:
        if style == "api":
            bases.append(api.NodeExecutionHook)

            def run_before_node_execution(self, *, node_name, node_tags, node_kwargs,
                                          node_return_type, task_id, run_id, node_input_types, **kw):
                self.to.add(self.label, "pre_node", run=run_id, task=task_id, node=node_name,
                          kwargs=freeze(node_kwargs))

            def run_after_node_execution(self, *, node_name, node_tags, node_kwargs,
                                         node_return_type, result, error, success, task_id, run_id,
                                         **kw):
                self.to.add(self.label, "post_node", run=run_id, task=task_id, node=node_name,
                          kwargs=freeze(node_kwargs), success=success, error=error, result=fz(result))

            d.update(run_before_node_execution=run_before_node_execution,
                     run_after_node_execution=run_after_node_execution)
        else:
            bases += [base.BasePreNodeExecute, base.BasePostNodeExecute]

            def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
                self.to.add(self.label, "pre_node", run=run_id, task=task_id, node=node_.name,
                          kwargs=freeze(kwargs))

            def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
                self.to.add(self.label, "post_node", run=run_id, task=task_id, node=node_.name,
                          kwargs=freeze(kwargs), success=success, error=error, result=fz(result))

            d.update(pre_node_execute=pre_node_execute, post_node_execute=post_node_execute)
    return type("Recorder_" + "_".join(sorted(kinds)), tuple(bases), d)


NEST = {"pre_graph": 0, "pre_task": 1, "pre_node": 2, "call": 3}


def check_protocol(events, recs, req, ref, outcome, task_based, V=Violation):
    """events: one execution's trace (with "fn"/"start","end" events of the functions).
    recs: [(name, kinds)] in registration order.  outcome: ("ok", result) | ("err", exc)."""

    order = [r[0] for r in recs]
    interested = {k: [r[0] for r in recs if k in r[1]] for k in ("graph", "task", "node")}
    runs = {e[3]["run"] for e in events if e[1] != "fn"}
    if len(runs) > 1:
        raise V("hook-run-id", f"one execution, several run ids {sorted(runs)}")

    # 1. collapse each hook occurrence (one event per interested adapter, in order, consecutively
    #    on its thread) to a single event
    per = {}
    for gi, e in enumerate(events):
        per.setdefault(e[0], []).append((gi, e))
    collapsed = {}
    for tid, evs in per.items():
        out = []
        i = 0
        while i < len(evs):
            gi, (t, src, kind, data) = evs[i]
            if src == "fn":
                out.append((gi, kind, data))
                i += 1
                continue
            want = interested[kind.split("_")[1]]
            got = [x[1][1] for x in evs[i:i + len(want)]]
            same = all(x[1][2] == kind and ident(x[1][3]) == ident(data) for x in evs[i:i + len(want)])
            if got != want or not same:
                raise V("hook-dispatch", f"{kind} {brief(data)}: adapters called {got} "
                        f"({[x[1][2] for x in evs[i:i + len(want)]]}), expected {want} in this order")
            for x in evs[i + 1:i + len(want)]:
                for k, v in data.items():
                    if k == "path" and (v is None or x[1][3][k] is None):
                        continue
                    if x[1][3][k] is not v and x[1][3][k] != v:
                        raise V("hook-dispatch", f"{kind}: adapters saw different {k}")
            d = data
            for x in evs[i:i + len(want)]:
                if x[1][3].get("path") is not None:
                    d = x[1][3]
            out.append((gi, kind, d))
            i += len(want)
        collapsed[tid] = out

    # 2. per thread nesting automaton
    node_pairs = {}
    task_pairs = {}
    graph = []
    for tid, evs in collapsed.items():
        stack = []
        for gi, kind, data in evs:
            if kind in ("pre_graph", "pre_task", "pre_node", "start"):
                lvl = {"pre_graph": 0, "pre_task": 1, "pre_node": 2, "start": 3}[kind]
                top = stack[-1][0] if stack else -1
                if lvl <= top:
                    raise V("hook-nesting", f"{kind} {brief(data)} inside {stack[-1][1]}")
                if kind == "start" and "node" in {k for k in interested if interested[k]}:
                    if top != 2 or stack[-1][2]["node"] != data["node"]:
                        raise V("hook-missing-before", f"function {data['node']} called without its before-node event")
                    if not same_args(stack[-1][2]["kwargs"], data["kwargs"]):
                        raise V("hook-wrong-inputs", f"before-node of {data['node']} said "
                                f"{stack[-1][2]['kwargs']}, function got {data['kwargs']}")
                    stack[-1][3]["called"] = True
                if kind == "pre_node" and task_based and interested["task"]:
                    if top != 1 or stack[-1][2]["task"] != data["task"]:
                        raise V("hook-nesting", f"node {brief(data)} outside its task")
                stack.append((lvl, kind, data, {}))
                if kind == "pre_graph":
                    graph.append((gi, data))
                continue
            pre = {"post_graph": "pre_graph", "post_task": "pre_task", "post_node": "pre_node",
                   "end": "start"}[kind]
            if not stack or stack[-1][1] != pre:
                raise V("hook-unpaired", f"{kind} {brief(data)} without matching {pre}; open: "
                        f"{[(s[1], brief(s[2])) for s in stack]}")
            _, _, pd, note = stack.pop()
            if kind != "end" and ident(pd) != ident(data):
                raise V("hook-unpaired", f"{kind} {brief(data)} closes {brief(pd)}")
            if kind == "end":
                if stack and stack[-1][1] == "pre_node":
                    stack[-1][3]["end"] = data
                if not data["success"]:
                    note["err"] = data["error"]
            elif kind == "post_node":
                if not note.get("called"):
                    raise V("hook-not-executed", f"node events for {brief(data)} but its function was not called")
                e = note["end"]
                if data["kwargs"] != pd["kwargs"]:
                    raise V("hook-wrong-inputs", f"after-node inputs of {brief(data)} differ from before-node")
                if data["success"] != e["success"] or (data["error"] is not e["error"]):
                    raise V("hook-wrong-outcome", f"after-node of {brief(data)} says success={data['success']} "
                            f"error={data['error']!r}; function: success={e['success']} error={e['error']!r}")
                if e["success"] and data["result"] != fz(e["result"]):
                    raise V("hook-wrong-result", f"after-node of {brief(data)} says {data['result']}, "
                            f"function returned {e['result']}")
                if not e["success"] and data["result"] is not None:
                    raise V("hook-wrong-result", f"failed node {brief(data)} reported a result")
                key = (data["task"], data["node"])
                if key in node_pairs:
                    raise V("hook-duplicate", f"node {key} reported twice")
                node_pairs[key] = data
                if stack and stack[-1][1] == "pre_task":
                    stack[-1][3].setdefault("done", []).append(data)
            elif kind == "post_task":
                if data["task"] in task_pairs:
                    raise V("hook-duplicate", f"task {data['task']} reported twice")
                task_pairs[data["task"]] = data
                done = note.get("done", [])
                failed = [x for x in done if not x["success"]]
                if interested["node"] and data["success"] == bool(failed):
                    raise V("hook-wrong-outcome", f"task {data['task']} says success={data['success']}, "
                            f"failed nodes {[x['node'] for x in failed]}")
                if failed and data["error"] is not failed[-1]["error"]:
                    raise V("hook-wrong-outcome", f"task {data['task']} says error {data['error']!r}, "
                            f"node raised {failed[-1]['error']!r}")
                if not failed:
                    for x in done:
                        r = data["results"]
                        if r is None:
                            raise V("hook-wrong-result", f"task {data['task']} reported no results")
                        if x["node"] in r and r[x["node"]] != x["result"]:
                            raise V("hook-wrong-result", f"task {data['task']} reports {x['node']}={r[x['node']]}, was {x['result']}")
                    missing = [x["node"] for x in done if x["node"] in data["nodes"]
                               and x["node"] not in (data["results"] or {})]
                    if missing:
                        raise V("hook-wrong-result", f"task {data['task']} results lack {missing}")
                for x in done:
                    if x["node"] not in data["nodes"]:
                        raise V("hook-nesting", f"node {x['node']} executed in task {data['task']} of {data['nodes']}")
            elif kind == "post_graph":
                graph.append((gi, data))
        if stack:
            raise V("hook-unpaired", f"never closed: {[(s[1], brief(s[2])) for s in stack]}")

    # 3. graph level
    if interested["graph"]:
        if len(graph) != 2:
            raise V("hook-graph", f"{len(graph)} graph events for one execution")
        lo, hi = graph[0][0], graph[1][0]
        n = len(interested["graph"])
        for gi, e in enumerate(events):
            if e[1] == "fn" or not e[2].endswith("graph"):
                if not lo <= gi <= hi:
                    raise V("hook-nesting", f"{e[2]} {brief(e[3])} outside the graph events")
        pre, post = graph[0][1], graph[1][1]
        ok = outcome[0] == "ok"
        if post["success"] != ok or (post["error"] is not (None if ok else outcome[1])):
            raise V("hook-wrong-outcome", f"after-graph says success={post['success']} error={post['error']!r}; "
                    f"execution ended {outcome[0]} {outcome[1]!r}")
        if ok and post["results"] != fz(outcome[1]):
            raise V("hook-wrong-result", f"after-graph says {post['results']}, execution returned {outcome[1]}")
        if pre["final"] != req["final"] and list(dict.fromkeys(pre["final"])) != list(dict.fromkeys(req["final"])):
            raise V("hook-wrong-inputs", f"before-graph final {pre['final']} != {req['final']}")
        if {k: v for k, v in pre["inputs"].items() if k in req["inputs"]} != req["inputs"] or \
                pre["overrides"] != req["overrides"]:
            raise V("hook-wrong-inputs", f"before-graph inputs {pre['inputs']} overrides {pre['overrides']}")
        if pre["path"] is not None:
            need = {n for n, _ in ref.calls}
            if not need <= set(pre["path"]):
                raise V("hook-wrong-inputs", f"before-graph path lacks {sorted(need - set(pre['path']))}")
    return node_pairs, task_pairs


def same_args(told, got):
    """What a hook was told vs. what the function received (which includes its defaults)."""
    told, got = dict(told), dict(got)
    for k, v in got.items():
        if k not in told and k.startswith("opt") and v == DEFAULT_OPT:
            told[k] = v
    return told == got


def ident(data):
    return (data.get("run"), data.get("task"), data.get("node"))


def brief(data):
    return ":".join(str(data[k]) for k in ("task", "node") if data.get(k))
