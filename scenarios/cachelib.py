"""Histories of executions against one cache: generation, execution in simulated process lives, and
the reference model of what must be reused."""

import copy
from collections import Counter

from simkit import drivers, flows, kernel, values, vfs
from simkit.kernel import Violation
from scenarios import common

FOCUS = common.CORE_FOCUS


def preload():
    common.preload_core()
    import hamilton.plugins.pandas_extensions  # noqa: F401
    import pandas as pd

    from hamilton.caching import fingerprinting

    for v in (pd.Series([1]), pd.DataFrame({"a": [1]}), 1, [1], {1: 2}):
        fingerprinting.hash_value(v)


# ---------------------------------------------------------------------- generation
def gen_cache_flow(rng, types=None, par_prob=0.55, max_plain=5, irrelevant=True, ext=True, fmt=True,
                   rich=False, big=False):
    flow = flows.gen_flow(rng, par_prob=par_prob, max_plain=max_plain, max_width=4, max_block=2,
                          durations=False, rich=rich and rng.random() < 0.4)
    types = types or (values.LIGHT if rng.random() < 0.6 else values.TYPES)
    monotone = rng.choice(types) if rng.random() < 0.3 else None
    pick = lambda: monotone or rng.choice(types)
    flow["itypes"] = {i: pick() for i in flow["inputs"]}
    for n in flow["nodes"]:
        n.pop("dur", None)
        n["typ"] = "int" if n["kind"] == "field" else "dict" if n.get("fields") else pick()
        if n["kind"] == "field":
            continue
        if rng.random() < 0.3:
            n["small"] = rng.choice([2, 3, 5])
        if n["kind"] == "expand" and n["width"] >= 2 and rng.random() < 0.3:
            n.pop("same", None)
            n["perm"] = True
    plain = [n for n in flow["nodes"] if n["kind"] == "plain"]
    if big and plain and rng.random() < 0.3:
        n = rng.choice(plain)
        if not n.get("fields"):
            n["typ"] = rng.choice(values.BIG)
            n["small"] = rng.choice([3, 2000, 2000])
            if flow["inputs"] and rng.random() < 0.5:
                k = rng.choice(list(flow["inputs"]))
                flow["itypes"][k] = rng.choice(values.BIG)
    may = [n for n in plain if not n.get("fields")]
    if irrelevant and may and rng.random() < 0.4:
        irr = rng.choice(may)
        irr["irrelevant"] = True
        for m in flow["nodes"]:
            if irr["name"] in m["deps"]:
                m.setdefault("skip", []).append(irr["name"])
    if ext and plain and rng.random() < 0.4:
        rng.choice(plain)["ext"] = True
    if fmt:
        fp = rng.choice([0.12, 0.12, 0.6]) if fmt == "often" else 0.12
        for n in flow["nodes"]:
            if n.get("fields") or n.get("loader"):
                continue
            if n["kind"] in ("plain", "block") and rng.random() < fp:
                f = {"jsondict": "json", "dict": "json"}.get(n["typ"], "pickle")
                if n["typ"] in ("optint",):
                    continue
                n["deco"] = f'@_cache(format="{f}")'
    return flow


def gen_behaviors(rng, flow):
    b = {}
    names = [n["name"] for n in flow["nodes"]]
    left = list(names)
    must = {n["name"] for n in flow["nodes"] if n.get("ext")}
    irr = [n["name"] for n in flow["nodes"] if n.get("irrelevant")]
    left = [x for x in left if x not in must and x not in irr]
    rng.shuffle(left)
    if rng.random() < 0.5:
        k = rng.randint(0, min(2, len(left)))
        b["recompute"] = sorted(left[:k])
        left = left[k:]
    if rng.random() < 0.3:
        k = rng.randint(0, min(2, len(left)))
        blocks = [n["name"] for n in flow["nodes"] if n["kind"] == "block" and n["name"] in left]
        if blocks and rng.random() < 0.5:
            b["disable"] = [rng.choice(blocks)]
            left.remove(b["disable"][0])
        else:
            b["disable"] = sorted(left[:k])
            left = left[k:]
    if rng.random() < 0.2 and left:
        k = rng.randint(0, min(2, len(left)))
        b["default"] = sorted(left[:k])
        left = left[k:]
    if rng.random() < 0.08:
        # everything the same
        which = rng.choice(["recompute", "disable"])
        b = {which: True}
        return b
    for x in must:
        b.setdefault(rng.choice(["recompute", "recompute", "disable"]), []).append(x)
    for x in irr:
        if x not in must:
            if rng.random() < 0.7:
                b.setdefault("ignore", []).append(x)
    if rng.random() < 0.12:
        b["default_behavior"] = rng.choice(["recompute", "disable", "default"])
    if any(n.get("loader") for n in flow["nodes"]) and rng.random() < 0.3:
        b["default_loader_behavior"] = rng.choice(["recompute", "disable", "default"])
    return {k: v for k, v in b.items() if v}


def gen_exec_item(rng, flow, prev=None, with_fail=0.0, mutate=True):
    """The next execution of the history: usually a small change of an earlier one."""
    if prev is None or rng.random() < 0.1:
        req = flows.par_overrides(rng, flow, flows.gen_request(rng, flow, overrides_prob=0.25))
        for k in req["inputs"]:
            req["inputs"][k] = rng.randrange(4)
        e = {"req": req, "exec": drivers.gen_exec(rng, flow), "beh": gen_behaviors(rng, flow),
             "ver": {}, "doc": {}, "ext": {n["name"]: rng.randrange(3) for n in flow["nodes"] if n.get("ext")}}
    else:
        e = copy.deepcopy(prev)
        e.pop("fail", None)
    names = [n["name"] for n in flow["nodes"]]
    if prev is not None and mutate:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.3 and e["req"]["inputs"]:
                k = rng.choice(sorted(e["req"]["inputs"]))
                e["req"]["inputs"][k] = rng.randrange(4)
            elif r < 0.5:
                e["ver"][rng.choice(names)] = rng.randrange(3)
            elif r < 0.6:
                e["doc"][rng.choice(names)] = rng.randrange(3)
            elif r < 0.7:
                req = flows.par_overrides(rng, flow, flows.gen_request(rng, flow, overrides_prob=0.4, config=False))
                e["req"]["final"] = req["final"]
                e["req"]["overrides"] = req["overrides"]
            elif r < 0.8:
                e["beh"] = gen_behaviors(rng, flow)
            elif r < 0.9:
                e["exec"] = drivers.gen_exec(rng, flow)
            elif e["ext"]:
                k = rng.choice(sorted(e["ext"]))
                e["ext"][k] = rng.randrange(3)
            elif e["req"].get("config"):
                k = rng.choice(sorted(e["req"]["config"]))
                e["req"]["config"][k] = rng.randrange(4)
    for k in e["req"]["overrides"]:
        if rng.random() < 0.6:
            v = e["req"]["overrides"][k]
            e["req"]["overrides"][k] = [rng.randrange(4) for _ in v] if isinstance(v, list) else rng.randrange(4)
    e["fresh"] = rng.random() < 0.5
    if with_fail and rng.random() < with_fail:
        e["fail"] = [{"node": rng.choice([n["name"] for n in flow["nodes"] if n["kind"] != "field"]), "nth": rng.choice([None, 0, 1])}]
        if rng.random() < 0.25:
            e["fail"][0]["exc"] = rng.choice(sorted(flows.INTERRUPTS))
    return e


def gen_history(rng, flow, n_lives=(1, 3), n_execs=(1, 4), with_fail=0.0):
    lives, prev, pool = [], None, []
    for _ in range(rng.randint(*n_lives)):
        execs = []
        for _ in range(rng.randint(*n_execs)):
            base = prev
            if pool and rng.random() < 0.3:
                base = rng.choice(pool)  # go back to an earlier state (revert an edit)
            e = gen_exec_item(rng, flow, base, with_fail)
            execs.append(e)
            pool.append(e)
            prev = e
        lives.append({"execs": execs})
    return lives


# ---------------------------------------------------------------------- execution
DOCS = [[], ['    """Some documentation."""'], ['    """Other docs."""', "    # a comment"]]


def effective(flow, e):
    nodes = []
    for n in flow["nodes"]:
        m = dict(n)
        if e["ver"].get(n["name"]):
            m["ver"] = e["ver"][n["name"]]
        if e["doc"].get(n["name"]):
            m["doc"] = DOCS[e["doc"][n["name"]]]
        if n.get("ext"):
            m["ext_value"] = e["ext"].get(n["name"], 0)
        nodes.append(m)
    return dict(flow, nodes=nodes)


def typed_req(flow, req):
    t = dict(flow.get("itypes", {}))
    t.update({n["name"]: n.get("typ") for n in flow["nodes"]})

    def conv(d):
        return {k: [values.make(t.get(k), x) for x in v] if isinstance(v, list) else values.make(t.get(k), v)
                for k, v in d.items()}

    return dict(req, inputs=conv(req["inputs"]), overrides=conv(req["overrides"]),
                config=conv(req.get("config", {})))


def canon_out(out):
    return {k: values.canon(v) for k, v in out.items()}


class Session:
    """One simulated process using the cache."""

    def __init__(self, sim, flow, cachedir, store="disk", log_to_file=False, probe_cls=flows.Probe):
        self.sim, self.flow, self.dir, self.store = sim, flow, cachedir, store
        self.mods = {}
        self.drivers = {}
        self.stores = None
        self.log_to_file = log_to_file
        self.probe_cls = probe_cls

    def _module(self, eff):
        src = flows.source_for(eff)
        if src not in self.mods:
            self.mods[src] = flows.build_module(src, None)
        return self.mods[src]

    def cache_kwargs(self, e):
        kw = {k: (list(v) if isinstance(v, list) else v) for k, v in e["beh"].items()}
        kw["path"] = self.dir
        if self.log_to_file:
            kw["log_to_file"] = True
        if self.store == "memory":
            from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore

            if self.stores is None:
                self.stores = (InMemoryMetadataStore(), InMemoryResultStore())
            kw["metadata_store"], kw["result_store"] = self.stores
        elif self.store == "split":
            from hamilton.caching.stores.file import FileResultStore
            from hamilton.caching.stores.sqlite import SQLiteMetadataStore

            kw["metadata_store"] = SQLiteMetadataStore(path=self.dir + "/meta")
            kw["result_store"] = FileResultStore(path=self.dir + "/res")
        return kw

    def driver(self, e, mod, req):
        key = repr((id(mod), e["exec"], sorted(e["beh"].items()), values.canon(req["config"])))
        if e.get("fresh") or key not in self.drivers:
            dr, info = drivers.build_driver(mod, e["exec"], config=req["config"], cache=self.cache_kwargs(e))
            self.drivers[key] = dr
        return self.drivers[key]

    def execute(self, e, keep=None):
        """Returns (canonical results | None, exception | None, probe, driver)."""
        eff = effective(self.flow, e)
        req = typed_req(eff, e["req"])
        probe = self.probe_cls(eff, fail=e.get("fail"))
        mod = self._module(eff)
        dr = None
        try:
            dr = self.driver(e, mod, req)
            mod._H = probe
            out = dr.execute(list(req["final"]), inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
            return canon_out(out), None, probe, dr
        except flows.ANY as ex:
            return None, ex, probe, dr


def reference(flow, e):
    eff = effective(flow, e)
    return flows.Ref(eff, typed_req(eff, e["req"]))


def check_result(flow, e, out, exc, probe, where=""):
    """The result an execution without cache would give; or an error raised by a function."""
    if exc is not None:
        if isinstance(exc, (flows.NodeBoom,) + tuple(flows.INTERRUPTS.values())) and any(exc is x for x in probe.raised):
            return False
        raise Violation("unexpected-error", f"{where}: {type(exc).__name__}: {exc}")
    ref = reference(flow, e)
    want = canon_out(ref.result)
    if out != want:
        bad = {k: (values.short(out.get(k)), values.short(want[k])) for k in want if out.get(k) != want[k]}
        raise Violation("stale-result", f"{where}: (got, expected without cache): {bad}")
    return True


# ---------------------------------------------------------------------- reuse model
def behavior_of(n, e):
    if n["kind"] == "expand":
        return "recompute"
    b = e["beh"]
    for k in ("default", "disable", "recompute", "ignore"):
        v = b.get(k)
        if v is True or (v and n["name"] in v):
            return k
    if n.get("tagbeh"):
        return n["tagbeh"]
    if n.get("loader"):
        return b.get("default_loader_behavior", "default")
    return b.get("default_behavior", "default")


class Model:
    """What the cache must know after the executions so far."""

    def __init__(self, flow):
        self.flow = flow
        self.stored = set()
        self.maybe = set()

    def _keys(self, e):
        """[(call record, behavior, key or None, count)] of an execution without cache."""
        eff = effective(self.flow, e)
        by = {n["name"]: n for n in eff["nodes"]}
        ref = flows.Ref(eff, typed_req(eff, e["req"]))
        out = []

        def beh_dep(d):
            if d in by:
                return behavior_of(by[d], e)
            # inputs: only the blanket settings apply
            for k in ("disable", "recompute", "ignore"):
                if e["beh"].get(k) is True:
                    return k
            return e["beh"].get("default_behavior", "default")

        for (name, kw), c in ref.calls.items():
            n = by[name]
            b = behavior_of(n, e)
            parts, disabled = [], False
            for d, v in kw:
                db = beh_dep(d)
                if db == "ignore":
                    parts.append((d, "<ignore>"))
                elif db == "disable":
                    disabled = True
                else:
                    parts.append((d, v))
            key = None if disabled or b in ("ignore", "disable") else (
                name, n.get("ver", 0), n.get("deco"), tuple(parts))
            out.append(((name, kw), b, key, c))
        return out

    def check(self, e, calls, where=""):
        """calls: Counter of what a successful execution really called."""
        calls = Counter(calls)
        for rec, b, key, c in self._keys(e):
            got = calls.pop(rec, 0)
            if b in ("recompute", "ignore", "disable") or key is None:
                if got != c:
                    raise Violation("behavior-not-honoured",
                                    f"{where}: {rec[0]} ({b}) called {got} times instead of {c}")
            elif key in self.stored:
                if got:
                    raise Violation("not-reused", f"{where}: {rec[0]}{values.short(rec[1])} was cached "
                                                  f"but is called again")
            elif key in self.maybe:
                if got > c:
                    raise Violation("call-count", f"{where}: {rec[0]} called {got} times, expected {c}")
            elif not (1 <= got <= c):
                raise Violation("call-count", f"{where}: {rec[0]}{values.short(rec[1])} is not in the cache; "
                                              f"called {got} times, expected {c}")
        if calls:
            raise Violation("unneeded-call", f"{where}: {values.short(next(iter(calls)))}")

    def commit(self, e):
        for rec, b, key, c in self._keys(e):
            if key is not None and b in ("default", "recompute"):
                self.stored.add(key)

    def handed_on(self, e, calls):
        """An interrupted execution: a result that had been given to another function is stored."""
        by = {n["name"]: n for n in self.flow["nodes"]}
        given = {d for name, kw in calls for d, _ in kw}
        done = set(calls)
        for rec, b, key, c in self._keys(e):
            if (rec in done and rec[0] in given and key is not None and b in ("default", "recompute")
                    and by[rec[0]]["kind"] == "plain"):
                self.stored.add(key)

    def maybe_commit(self, e):
        """The execution was interrupted: some of its work may be in the cache."""
        for rec, b, key, c in self._keys(e):
            if key is not None and b in ("default", "recompute"):
                self.maybe.add(key)


# ---------------------------------------------------------------------- shrinking
def shrink_history(plan):
    lives = plan["lives"]
    if len(lives) > 1:
        for k in range(len(lives)):
            yield dict(plan, lives=lives[:k] + lives[k + 1:])
    for k, lf in enumerate(lives):
        ex = lf["execs"]
        if len(ex) > 1:
            for j in range(len(ex)):
                yield dict(plan, lives=lives[:k] + [dict(lf, execs=ex[:j] + ex[j + 1:])] + lives[k + 1:])

    def rep(k, j, e2):
        ls = [dict(l, execs=list(l["execs"])) for l in lives]
        ls[k]["execs"][j] = e2
        return dict(plan, lives=ls)

    for k, lf in enumerate(lives):
        for j, e in enumerate(lf["execs"]):
            if e["beh"]:
                keep = {kk: v for kk, v in e["beh"].items()}
                for kk in list(keep):
                    if isinstance(keep[kk], list):
                        must = [x for x in keep[kk] if any(n["name"] == x and (n.get("ext") or n.get("irrelevant"))
                                                           for n in plan["flow"]["nodes"])]
                        if must != keep[kk]:
                            nb = dict(keep)
                            nb[kk] = must
                            yield rep(k, j, dict(e, beh={a: b for a, b in nb.items() if b}))
                    elif kk in ("default_behavior", "default_loader_behavior"):
                        yield rep(k, j, dict(e, beh={a: b for a, b in keep.items() if a != kk}))
            if e.get("fail"):
                yield rep(k, j, {a: b for a, b in e.items() if a != "fail"})
            if e["doc"]:
                yield rep(k, j, dict(e, doc={}))
            if e["ver"]:
                for v in e["ver"]:
                    yield rep(k, j, dict(e, ver={a: b for a, b in e["ver"].items() if a != v}))
            if e["req"]["overrides"]:
                yield rep(k, j, dict(e, req=dict(e["req"], overrides={})))
            if len(e["req"]["final"]) > 1:
                for f in e["req"]["final"]:
                    yield rep(k, j, dict(e, req=dict(e["req"], final=[f])))
            for x in drivers.shrink_exec(e["exec"]):
                yield rep(k, j, dict(e, exec=x))
            if e["req"].get("config"):
                yield rep(k, j, dict(e, req=dict(e["req"], config={}, inputs={**e["req"]["config"], **e["req"]["inputs"]})))
    # smaller dataflow: drop nodes nothing uses, in every execution
    flow = plan["flow"]
    used = {d for n in flow["nodes"] for d in n["deps"]} | {n["over"] for n in flow["nodes"] if n["kind"] == "collect"}
    used |= {f for n in flow["nodes"] for f in n.get("fields", ())}
    groups = {}
    for n in flow["nodes"]:
        if n["kind"] in ("expand", "block", "collect"):
            groups.setdefault(n.get("of", n["name"]), set()).add(n["name"])
    for n in reversed(flow["nodes"]):
        if n["name"] in used or n["kind"] not in ("plain", "collect") or n.get("fields"):
            continue
        rm = {n["name"]} if n["kind"] == "plain" else groups[n["of"]]
        p2 = drop_nodes(plan, rm)
        if p2 is not None:
            yield p2
    for i, n in enumerate(flow["nodes"]):
        if n.get("fields"):
            continue
        for ch in ({"typ": "int"}, {"deco": None}, {"small": None}, {"loader": None}, {"awhen": None},
                   {"dflt": None}):
            k, v = next(iter(ch.items()))
            if n.get(k) != v and n.get(k) is not None:
                ns = list(flow["nodes"])
                ns[i] = {a: b for a, b in n.items() if a != k}
                if v is not None:
                    ns[i][k] = v
                yield dict(plan, flow=dict(flow, nodes=ns))
        if n["kind"] == "expand" and n["width"] > 1:
            ns = list(flow["nodes"])
            ns[i] = dict(n, width=n["width"] - 1)
            yield dict(plan, flow=dict(flow, nodes=ns))
        if n["kind"] == "plain" and n["deps"]:
            for d in n["deps"]:
                ns = list(flow["nodes"])
                ns[i] = dict(n, deps=[x for x in n["deps"] if x != d])
                if n.get("dflt"):
                    ns[i]["dflt"] = [x for x in n["dflt"] if x != d]
                yield dict(plan, flow=dict(flow, nodes=ns))


def drop_nodes(plan, rm):
    flow = plan["flow"]
    fl = dict(flow, nodes=[m for m in flow["nodes"] if m["name"] not in rm])
    if not fl["nodes"]:
        return None
    ls = []
    for l in plan["lives"]:
        ex = []
        for e in l["execs"]:
            final = [f for f in e["req"]["final"] if f not in rm]
            if not final:
                return None
            beh = {}
            for k, v in e["beh"].items():
                beh[k] = [x for x in v if x not in rm] if isinstance(v, list) else v
            e2 = dict(e, beh={k: v for k, v in beh.items() if v},
                      ver={k: v for k, v in e["ver"].items() if k not in rm},
                      doc={k: v for k, v in e["doc"].items() if k not in rm},
                      ext={k: v for k, v in e["ext"].items() if k not in rm},
                      req=dict(e["req"], final=final,
                               overrides={k: v for k, v in e["req"]["overrides"].items() if k not in rm}))
            if e.get("fail"):
                e2["fail"] = [f for f in e["fail"] if f["node"] not in rm]
            ex.append(e2)
        ls.append(dict(l, execs=ex))
    return dict(plan, flow=fl, lives=ls)
