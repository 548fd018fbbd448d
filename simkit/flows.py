"""Random dataflows (plans), the Python modules generated from them, and an independent reference
evaluator used as the oracle."""

import collections
import concurrent.futures
import linecache
import queue
import sys
import types
import zlib

from simkit import kernel, values

MASK = 0x7FFFFFFF


def mix(name, items):
    return zlib.crc32(repr((name, sorted(items, key=lambda kv: kv[0]))).encode()) & MASK


def _plain(v):
    t = type(v)
    if t is int:
        return v
    if t is list and all(type(x) is int for x in v):
        return tuple(v)
    return values.canon(v)


def freeze(kwargs):
    return tuple(sorted(((k, _plain(v)) for k, v in kwargs.items()), key=lambda kv: kv[0]))


class NodeBoom(Exception):
    """Raised by generated dataflow functions when the plan says so."""


class OtherBoom(Exception):
    pass


class BigBoom(Exception):
    """Needs two arguments, so it cannot be rebuilt from its message alone."""

    def __init__(self, a, b="x"):
        super().__init__(a)


EXCS = {"NodeBoom": NodeBoom, "OtherBoom": OtherBoom, "ValueError": ValueError, "KeyError": KeyError,
        "TimeoutError": TimeoutError, "CancelledError": concurrent.futures.CancelledError,
        "RuntimeError": RuntimeError, "TypeError": TypeError, "AttributeError": AttributeError,
        "NotImplementedError": NotImplementedError, "AssertionError": AssertionError,
        "IndexError": IndexError, "MemoryError": MemoryError, "OSError": OSError, "BigBoom": BigBoom,
        "ImportError": ImportError, "StopIteration": StopIteration, "Empty": queue.Empty}
# how a user or the environment stops a function that is running: Ctrl-C, sys.exit()
INTERRUPTS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}
ANY = (Exception,) + tuple(INTERRUPTS.values())


# ---------------------------------------------------------------------- generation
def gen_flow(rng, max_plain=6, max_par=2, par_prob=0.8, max_width=5, allow_default=True,
             max_block=3, durations=True, rich=False, wide=0.06):
    """A dataflow plan: nodes in topological order.

    node: {"name","kind": plain|expand|block|collect,"deps":[...],"opt":[input names with default],
           "dur": virtual seconds, "of": expand name (block/collect), "over": collected dep}
    """
    names = set()

    def fresh(prefix):
        while True:
            n = f"{prefix}{rng.randrange(1000)}"
            if n not in names:
                names.add(n)
                return n

    inputs = {fresh("in"): rng.randrange(100) for _ in range(rng.randint(1, 3))}
    optional = [fresh("opt") for _ in range(rng.randint(0, 2))] if allow_default else []
    nodes = []
    avail = list(inputs)

    def pick_deps(pool, lo, hi):
        k = min(len(pool), rng.randint(lo, hi))
        return rng.sample(pool, k) if k else []

    def dur():
        if not durations:
            return 0
        return rng.choice([0, 0, 0, 0.001, 0.01, 0.05, 0.5])

    def add_plain():
        n = {"name": fresh("p"), "kind": "plain", "deps": pick_deps(avail, 0, 3), "dur": dur()}
        if optional and rng.random() < 0.25:
            n["opt"] = [rng.choice(optional)]
        if rich and rng.random() < 0.3:
            r = rng.random()
            deps = [d for d in n["deps"]]
            if r < 0.35 and deps and n["kind"] == "plain":
                n["dflt"] = rng.sample(deps, rng.randint(1, len(deps)))  # parameters with a default
            elif r < 0.6:
                n["loader"] = True
            elif r < 0.8:
                n["awhen"] = True  # one of several implementations, chosen by configuration
            else:
                n["fields"] = [fresh("f") for _ in range(rng.randint(1, 3))]
        nodes.append(n)
        if n.get("fields"):
            for f in n["fields"]:
                nodes.append({"name": f, "kind": "field", "deps": [n["name"]]})
                avail.append(f)
        else:
            avail.append(n["name"])

    def add_par():
        e = {"name": fresh("e"), "kind": "expand", "deps": pick_deps(avail, 0, 2),
             "width": rng.choice([0, 1, 2, 2, 3, 3, 4, max_width]) if rng.random() >= wide
             else rng.randint(11, 13), "dur": dur(),
             "gen": rng.random() < 0.7}
        if not e["gen"] and rng.random() < 0.4:
            e["seq"] = rng.choice(["tuple", "iter"])
        if rng.random() < 0.3:
            e["same"] = True  # all elements equal
        nodes.append(e)
        blocks = []
        for i in range(rng.randint(1, max_block)):
            inside = [e["name"]] + [b["name"] for b in blocks]
            d = pick_deps(inside, 1, 2)
            # keep the block connected: every block node must reach the collected one
            if blocks and not any(b["name"] in d for b in blocks[-1:]):
                d = [blocks[-1]["name"]] + [x for x in d if x != blocks[-1]["name"]]
            outside = pick_deps([a for a in avail], 0, 1) if rng.random() < 0.5 else []
            b = {"name": fresh("b"), "kind": "block", "of": e["name"], "deps": d + outside,
                 "dur": dur()}
            if optional and rng.random() < 0.15:
                b["opt"] = [rng.choice(optional)]
            if rich and rng.random() < 0.2:
                b[rng.choice(["loader", "awhen"])] = True
            nodes.append(b)
            blocks.append(b)
        c = {"name": fresh("c"), "kind": "collect", "of": e["name"], "over": blocks[-1]["name"],
             "deps": pick_deps(avail, 0, 1) if rng.random() < 0.5 else [], "dur": dur()}
        nodes.append(c)
        avail.append(c["name"])

    for _ in range(rng.randint(0, max_plain // 2)):
        add_plain()
    for _ in range(rng.randint(1, max_par) if max_par and rng.random() < par_prob else 0):
        add_par()
        for _ in range(rng.randint(0, 2)):
            add_plain()
    while len(nodes) < 2 or rng.random() < 0.3 and len(nodes) < max_plain + 10:
        add_plain()
    return {"nodes": nodes, "inputs": inputs, "optional": optional}


def oddify(rng, flow, evil=True):
    """Let nodes and inputs have values such as None, 0, "" or []; sometimes values nobody can look
    into."""
    flow["odd"] = True
    for n in flow["nodes"]:
        if not n.get("fields") and rng.random() < 0.6:
            n["typ"] = "evil" if evil and rng.random() < 0.1 else "odd"
    for n in flow["nodes"]:
        if n.get("fields"):
            for m in flow["nodes"]:
                if m["name"] in n["fields"] and m.get("typ"):
                    m["typ"] = "odd"
                    n.setdefault("ftypes", {})[m["name"]] = "odd"
    flow["itypes"] = {i: "odd" for i in flow["inputs"] if rng.random() < 0.6}
    for i in flow["itypes"]:
        flow["inputs"][i] = odd_value(rng, flow["inputs"][i])
    return flow


def odd_value(rng, v):
    k = rng.randrange(9)
    return values.odd(k) if k < 6 else v


def fresh_inputs(rng, flow, inputs):
    """Other values for a request's inputs."""
    for x in inputs:
        inputs[x] = rng.randrange(100)
        if x in flow.get("itypes", ()):
            inputs[x] = odd_value(rng, inputs[x])


def same(a, b):
    """Equal in type and value."""
    return values.canon(a) == values.canon(b)


def show(v):
    return values.short(values.canon(v), 400)


def requestable(flow):
    return [n["name"] for n in flow["nodes"] if n["kind"] in ("plain", "collect", "field")
            and not n.get("fields")]


def par_overrides(rng, flow, req):
    """Overrides inside and at the mouth of parallel regions, and requests for what is expanded."""
    by = {n["name"]: n for n in flow["nodes"]}

    def val():
        v = rng.randrange(1000, 2000)
        return odd_value(rng, v) if flow.get("odd") else v

    for n in flow["nodes"]:
        if n["kind"] == "expand":
            if rng.random() < 0.15:
                req["overrides"][n["name"]] = [val() for _ in range(rng.randrange(5))]
            if rng.random() < 0.1 and n.get("typ") != "evil":
                req["final"].append(n["name"])
    for n in flow["nodes"]:
        if n["kind"] != "collect" or rng.random() < 0.8:
            continue
        blocks = [m["name"] for m in flow["nodes"] if m["kind"] == "block" and m["of"] == n["of"]
                  and m["name"] != n["over"]]
        if not blocks:
            continue
        cut = rng.choice(blocks)
        # the collected node still has to depend on the expansion
        todo, reach = [n["over"]], set()
        while todo:
            x = todo.pop()
            if x in reach or x == cut:
                continue
            reach.add(x)
            if x in by and by[x]["kind"] == "block":
                todo += by[x]["deps"]
        if n["of"] in reach:
            req["overrides"][cut] = val()
    return req


def gen_request(rng, flow, overrides_prob=0.3, inputs_too=True, config=True):
    req = requestable(flow)
    k = rng.randint(1, min(3, len(req)))
    # favour late nodes
    final = rng.sample(req, k)
    if rng.random() < 0.7 and req[-1] not in final:
        final.append(req[-1])
    inputs = dict(flow["inputs"])
    for o in flow["optional"]:
        if rng.random() < 0.5:
            inputs[o] = rng.randrange(100)
            if flow.get("odd") and rng.random() < 0.4:
                inputs[o] = 0
    overrides = {}
    if rng.random() < overrides_prob:
        for n in rng.sample(req, min(len(req), rng.randint(1, 2))):
            overrides[n] = rng.randrange(1000, 2000)
    cfg = {}
    if inputs_too:
        if rng.random() < 0.08:
            used = used_inputs(flow)
            if used:
                overrides[rng.choice(used)] = rng.randrange(1000, 2000)
        if rng.random() < 0.08:
            # an input asked for directly; only those the graph knows
            used = used_inputs(flow)
            if used:
                final.append(rng.choice(used))
    if flow.get("odd"):
        for n in overrides:
            overrides[n] = odd_value(rng, overrides[n])
    if config and rng.random() < 0.3:
        for k in list(inputs):
            if rng.random() < 0.5:
                cfg[k] = inputs.pop(k)
    return {"final": final, "inputs": inputs, "overrides": overrides, "config": cfg}


def used_inputs(flow):
    used = {d for n in flow["nodes"] for d in n["deps"]}
    return [i for i in flow["inputs"] if i in used]


# ---------------------------------------------------------------------- module generation
_counter = [0]

DEFAULT_OPT = 7


def source_for(flow, salt=None):
    """Source text of the generated module."""
    lines = ["from hamilton.htypes import Parallelizable, Collect",
             "from hamilton.function_modifiers import cache as _cache, dataloader as _dataloader",
             "from hamilton.function_modifiers import extract_fields as _extract, config as _config",
             "from hamilton.lifecycle.default import accept_error_sentinels as _aes",
             "from typing import Tuple as _Tuple",
             "import numpy as _np", "import pandas as _pd", ""]
    ann = {k: values.ANN[t] for k, t in flow.get("itypes", {}).items()}
    ann.update({n["name"]: values.ANN[n.get("typ") or "int"] for n in flow["nodes"]})
    for n in flow["nodes"]:
        params = []
        rt = ann[n["name"]]
        if n["kind"] == "field":
            continue
        if n.get("deco"):
            lines.append(n["deco"])
        if n["kind"] == "collect":
            params.append(f"{n['over']}: Collect[{ann[n['over']]}]")
        dflt = n.get("dflt", ())
        params += [f"{d}: {ann.get(d, 'int')}" for d in n["deps"] if d not in dflt]
        params += [f"{d}: {ann.get(d, 'int')} = None" for d in n["deps"] if d in dflt]
        params += [f"{o}: int = {DEFAULT_OPT}" for o in n.get("opt", [])]
        all_names = ([n["over"]] if n["kind"] == "collect" else []) + n["deps"] + n.get("opt", [])
        kw = "dict(" + ", ".join(f"{a}={a}" for a in all_names) + ")"
        ver = n.get("ver", 0)
        extra = f", {ver}" if ver else ""
        if n["kind"] == "expand":
            lines.append(f"def {n['name']}({', '.join(params)}) -> Parallelizable[{rt}]:")
            lines += n.get("doc", [])
            if n.get("gen", True):
                lines.append(f"    for item in _H.expand({n['name']!r}, {kw}{extra}):")
                lines.append("        yield item")
            else:
                lines.append(f"    return {n.get('seq', 'list')}(_H.expand({n['name']!r}, {kw}{extra}))")
        else:
            a = "async " if n.get("async") else ""
            fn = n["name"]
            if n.get("loader"):
                lines.append("@_dataloader()")
                rt = f"_Tuple[{rt}, dict]"
            if n.get("fields"):
                lines.append("@_extract({" + ", ".join(f"{f!r}: {ann[f]}" for f in n["fields"]) + "})")
                rt = "dict"
            if n.get("awhen"):
                lines.append("@_config.when_not(_never=1)")
                fn += "__one"
            lines.append(f"{a}def {fn}({', '.join(params)}) -> {rt}:")
            lines += n.get("doc", [])
            if n.get("loader"):
                lines.append(f"    return _H.node({n['name']!r}, {kw}{extra}), {{'rows': 1}}")
            elif a:
                lines.append(f"    return await _H.anode({n['name']!r}, {kw}{extra})")
            else:
                lines.append(f"    return _H.node({n['name']!r}, {kw}{extra})")
            if n.get("awhen"):
                lines += ["", "@_config.when(_never=1)",
                          f"def {n['name']}__two({', '.join(params)}) -> {rt}:",
                          f"    raise AssertionError('not the configured implementation')"]
        lines.append("")
    return "\n".join(lines)


def build_module(src, probe, name=None, path=None):
    _counter[0] += 1
    name = name or f"simflow_{_counter[0]}"
    fname = path or f"<simflow-{name}>"
    mod = types.ModuleType(name)
    mod.__file__ = fname
    mod.__package__ = name
    if path:
        with open(path, "w") as f:
            f.write(src)
    mod._H = probe
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    exec(compile(src, fname, "exec"), mod.__dict__)
    sys.modules[name] = mod
    kernel.instrument_functions(
        [f for f in mod.__dict__.values()
         if isinstance(f, types.FunctionType) and f.__module__ == name]
    )
    return mod


# ---------------------------------------------------------------------- probe
class Probe:
    """Observes every execution of a generated function."""

    def __init__(self, flow, fail=None, on_call=None):
        self.nodes = {n["name"]: n for n in flow["nodes"]}
        self.fail = fail or []  # [{"node":..., "nth": k or None, "exc": "NodeBoom"}]
        self.calls = []  # (name, frozen kwargs) at start
        self.finished = []
        self.active = 0
        self.nth = collections.Counter()
        self.max_active = collections.Counter()
        self.active_by_kind = collections.Counter()
        self.raised = []
        self.on_call = on_call
        self.by_tid = []  # (thread id, record)

    def _begin(self, name, kwargs):
        sim = kernel.SIM
        rec = (name, freeze(kwargs))
        self.calls.append(rec)
        self.by_tid.append((sim.current.tid if sim is not None else -1, rec))
        if sim is not None:
            sim.event("start", name, rec[1])
        kind = self.nodes[name]["kind"] if name in self.nodes else "plain"
        self.active_by_kind[kind] += 1
        self.max_active[kind] = max(self.max_active[kind], self.active_by_kind[kind])
        k = self.nth[name]
        self.nth[name] += 1
        if self.on_call is not None:
            self.on_call(name, kwargs)
        d = self.nodes[name].get("dur", 0) if name in self.nodes else 0
        if sim is not None:
            if d:
                sim.sleep(d)
            else:
                sim.yield_point()
        return rec, kind, k

    def _maybe_fail(self, name, k, kwargs):
        for f in self.fail:
            if f.get("after") is not None:
                continue
            if "tid" in f and f["tid"] != kernel.SIM.current.tid:
                continue
            if f["node"] == name and (f.get("nth") is None or f["nth"] == k):
                exc = f.get("exc", "NodeBoom")
                e = (INTERRUPTS.get(exc) or EXCS[exc])(f"{name}#{k}")
                self.raised.append(e)
                sim = kernel.SIM
                if sim is not None:
                    sim.count("fault:interrupt" if exc in INTERRUPTS else "fault:node_error")
                    sim.event("raise", name, k)
                raise e

    def _failing_items(self, name, items, f):
        """A generator that breaks after some elements."""
        yield from items[: f["after"]]
        if f["after"] <= len(items):
            exc = f.get("exc", "NodeBoom")
            e = (INTERRUPTS.get(exc) or EXCS[exc])(f"{name}@{f['after']}")
            self.raised.append(e)
            kernel.SIM.count("fault:node_error")
            raise e

    def _end(self, rec, kind):
        self.active_by_kind[kind] -= 1
        self.finished.append(rec)
        sim = kernel.SIM
        if sim is not None:
            sim.event("end", rec[0])

    def node(self, name, kwargs, ver=0):
        rec, kind, k = self._begin(name, kwargs)
        try:
            self._maybe_fail(name, k, kwargs)
            return value_of(self.nodes.get(name), name, kwargs, ver)
        finally:
            self._end(rec, kind)

    def expand(self, name, kwargs, ver=0):
        rec, kind, k = self._begin(name, kwargs)
        try:
            self._maybe_fail(name, k, kwargs)
            out = expand_values(self.nodes[name], kwargs, ver)
            fs = [f for f in self.fail if f["node"] == name and f.get("after") is not None]
            if fs:
                return self._failing_items(name, out, min(fs, key=lambda f: f["after"]))
            return out
        finally:
            self._end(rec, kind)


def value_of(node, name, kwargs, ver=0):
    skip = node.get("skip", ()) if node else ()
    items = [(k, _plain(v)) for k, v in kwargs.items() if k not in skip]
    h = mix(f"{name}@{ver}" if ver else name, items)
    if node is not None and node.get("ext"):
        h = (h + 7919 * node["ext_value"]) & MASK  # a source outside the dataflow
    if node is not None and node.get("small"):
        h %= node["small"]
    if node is not None and node.get("fields"):
        typs = node.get("ftypes", {})
        return {f: values.make(typs.get(f), mix(f, [("h", h)])) for f in node["fields"]}
    if node is None or node["kind"] == "expand" or node.get("typ") is None:
        return h
    return values.make(node["typ"], h)


def expand_values(node, kwargs, ver=0):
    base = value_of(node, node["name"], kwargs, ver)
    if node.get("same"):
        out = [base for _ in range(node["width"])]
    elif node.get("perm"):
        # the same elements in an order that depends on the arguments
        out = [100 + (i + base) % node["width"] for i in range(node["width"])]
    else:
        out = [(base + 31 * i) & MASK for i in range(node["width"])]
    return [values.make(node.get("typ"), x) for x in out]


# ---------------------------------------------------------------------- reference
class Ref:
    """Independent sequential evaluation of a request on a flow."""

    def __init__(self, flow, req):
        self.flow = flow
        self.by = {n["name"]: n for n in flow["nodes"]}
        self.inputs = {**req.get("config", {}), **req["inputs"]}
        self.overrides = req["overrides"]
        self.calls = collections.Counter()
        self.memo = {}
        self.computed = collections.defaultdict(list)  # node -> values it had
        self.result = {}
        for f in req["final"]:
            self.result[f] = self.get(f)

    def _args(self, n, getter):
        kw = {d: getter(d) for d in n["deps"]}
        for o in n.get("opt", []):
            kw[o] = self.overrides.get(o, self.inputs.get(o, DEFAULT_OPT))
        return kw

    def get(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name in self.inputs:
            return self.inputs[name]
        if name in self.memo:
            return self.memo[name]
        n = self.by[name]
        if n["kind"] == "field":
            self.memo[name] = self.get(n["deps"][0])[name]
            self.computed[name].append(self.memo[name])
            return self.memo[name]
        if n["kind"] == "plain":
            kw = self._args(n, self.get)
        elif n["kind"] == "expand":
            return list(self.expanded(n))
        elif n["kind"] == "collect":
            items = self.branches(n["of"], n["over"])
            kw = self._args(n, self.get)
            kw[n["over"]] = items
        else:
            raise AssertionError("cannot request " + name)
        self.calls[(name, freeze(kw))] += 1
        self.memo[name] = value_of(n, name, kw, n.get("ver", 0))
        self.computed[name].append(self.memo[name])
        return self.memo[name]

    def expanded(self, e):
        if e["name"] in self.overrides:
            return self.overrides[e["name"]]
        if e["name"] not in self.memo:
            kw = self._args(e, self.get)
            self.calls[(e["name"], freeze(kw))] += 1
            self.memo[e["name"]] = expand_values(e, kw, e.get("ver", 0))
        return self.memo[e["name"]]

    def branches(self, ename, over):
        e = self.by[ename]
        elements = self.expanded(e)
        # what the branches take from outside is on the path even if there are no branches
        todo, seen = [over], set()
        while todo:
            n = self.by[todo.pop()]
            if n["name"] in seen or n["name"] in self.overrides:
                continue
            seen.add(n["name"])
            for d in n["deps"]:
                dn = self.by.get(d)
                if dn is not None and dn["kind"] == "block":
                    todo.append(d)
                elif d != ename:
                    self.get(d)
        out = []
        for v in elements:
            local = {ename: v}

            def getb(name):
                if name in local:
                    return local[name]
                if name in self.overrides:
                    return self.overrides[name]
                n = self.by.get(name)
                if n is not None and n["kind"] == "block":
                    kw2 = self._args(n, getb)
                    self.calls[(name, freeze(kw2))] += 1
                    local[name] = value_of(n, name, kw2, n.get("ver", 0))
                    self.computed[name].append(local[name])
                    return local[name]
                return self.get(name)

            out.append(getb(over))
        return out


# ---------------------------------------------------------------------- shrinking
def shrink_flow(flow, req):
    """Smaller (flow, req) candidates."""
    import copy

    names_used = lambda fl: {d for n in fl["nodes"] for d in n["deps"]} | {
        n["over"] for n in fl["nodes"] if n["kind"] == "collect"
    }
    # drop a node nobody uses
    used = names_used(flow)
    groups = collections.defaultdict(list)
    for n in flow["nodes"]:
        if n["kind"] in ("expand", "block", "collect"):
            groups[n.get("of", n["name"])].append(n["name"])
    for n in reversed(flow["nodes"]):
        if n["kind"] in ("plain", "field") and n["name"] not in used:
            rm = {n["name"]}
        elif n["kind"] == "collect" and n["name"] not in used:
            rm = set(groups[n["of"]])
        else:
            continue
        final = [f for f in req["final"] if f not in rm]
        if not final:
            continue
        fl = dict(flow, nodes=[m for m in flow["nodes"] if m["name"] not in rm])
        rq = dict(req, final=final,
                  overrides={k: v for k, v in req["overrides"].items() if k not in rm})
        for m in fl["nodes"]:
            if n["kind"] == "field" and n["name"] in m.get("fields", ()):
                fl["nodes"][fl["nodes"].index(m)] = dict(m, fields=[f for f in m["fields"] if f != n["name"]])
        if any(m.get("fields") == [] for m in fl["nodes"]):
            continue
        yield fl, rq
    if len(req["final"]) > 1:
        for f in req["final"]:
            yield flow, dict(req, final=[f])
    if req["overrides"]:
        yield flow, dict(req, overrides={})
    if req.get("config"):
        yield flow, dict(req, inputs={**req["config"], **req["inputs"]}, config={})
    for i, n in enumerate(flow["nodes"]):
        if n["kind"] == "expand" and n["width"] > 0:
            for w in sorted({0, 1, 2, n["width"] - 1}):
                if w < n["width"]:
                    fl = copy.deepcopy(flow)
                    fl["nodes"][i]["width"] = w
                    yield fl, req
        if n.get("dur"):
            fl = copy.deepcopy(flow)
            fl["nodes"][i]["dur"] = 0
            yield fl, req
        if n["kind"] == "plain" and n["deps"]:
            for d in n["deps"]:
                fl = copy.deepcopy(flow)
                fl["nodes"][i]["deps"].remove(d)
                if d in n.get("dflt", ()):
                    fl["nodes"][i]["dflt"].remove(d)
                yield fl, req
        for k in ("loader", "awhen", "dflt"):
            if n.get(k):
                fl = copy.deepcopy(flow)
                del fl["nodes"][i][k]
                yield fl, req
