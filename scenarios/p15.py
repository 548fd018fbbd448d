"""P15: the graceful error adapter confines failures to dependents."""

import zlib
from collections import Counter

from simkit import drivers, flows, kernel, values
from simkit.kernel import Violation
from scenarios import common, p01
from scenarios.p02 import check_calls

ID = "P15"
FOCUS = common.CORE_FOCUS
preload = p01.preload


class SubBoom(flows.NodeBoom):
    pass


EXC = {"NodeBoom": flows.NodeBoom, "SubBoom": SubBoom, "OtherBoom": flows.OtherBoom, **flows.INTERRUPTS}
OBJ = values.Thing("sentinel", 0)
SENT = {"none": None, "str": "SENT", "int": -12345, "tuple": ("s",), "obj": OBJ, "empty": "", "false": False,
        "list": ["S"], "zero": 0, "fzero": 0.0, "elist": []}


class Fatal(Exception):
    pass


def failing(fail, name, kwargs):
    """Which failure (if any) a call meets: a function of the call only, not of the schedule."""
    for f in fail:
        if f["node"] == name:
            if f["mod"] == 1 or zlib.crc32(repr((f["salt"], name, flows.freeze(kwargs))).encode()) % f["mod"] == 0:
                return f
    return None


class Probe(flows.Probe):
    def _boom(self, f, name):
        e = EXC[f["exc"]](f"{name} fails")
        self.raised.append(e)
        kernel.SIM.count("fault:interrupt" if f["exc"] in flows.INTERRUPTS else "fault:node_error")
        kernel.SIM.event("raise", name)
        raise e

    def _maybe_fail(self, name, k, kwargs):
        f = failing(self.fail, name, kwargs)
        if f and f.get("after") is None:
            self._boom(f, name)

    def expand(self, name, kwargs, ver=0):
        rec, kind, k = self._begin(name, kwargs)
        try:
            self._maybe_fail(name, k, kwargs)
            out = flows.expand_values(self.nodes[name], kwargs, ver)
            f = failing(self.fail, name, kwargs)
            return self._broken(name, out, f) if f else out
        finally:
            self._end(rec, kind)

    def _broken(self, name, items, f):
        for i, x in enumerate(items):
            if i == f["after"]:
                self._boom(f, name)
            kernel.SIM.yield_point()
            yield x
        if f["after"] == len(items):
            self._boom(f, name)


class GRef(flows.Ref):
    """What the adapter promises, evaluated sequentially."""

    def __init__(self, flow, req, g, fail):
        self.g, self.fail = g, fail
        self.S = SENT[g["sentinel"]]
        self.catch = EXC.get(g["catch"], Exception)
        self.fatal = False
        super().__init__(flow, dict(req, final=[]))
        for f in req["final"]:
            try:
                self.result[f] = self.get(f)
            except Fatal:
                self.fatal = True

    def is_s(self, v):
        return type(v) is type(self.S) and v == self.S

    def skip(self, n, kw):
        if n.get("aes") and self.g["inject"]:
            return False
        return any(self.is_s(v) for v in kw.values())

    def call(self, n, kw):
        if self.skip(n, kw):
            return self.S
        self.calls[(n["name"], flows.freeze(kw))] += 1
        f = failing(self.fail, n["name"], kw)
        if f:
            if not issubclass(EXC[f["exc"]], self.catch):
                raise Fatal
            return self.S
        return flows.value_of(n, n["name"], kw)

    def get(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name in self.inputs:
            return self.inputs[name]
        if name in self.memo:
            return self.memo[name]
        n = self.by[name]
        if n["kind"] == "field":
            v = self.get(n["deps"][0])
            self.memo[name] = self.S if self.is_s(v) else v[name]
            return self.memo[name]
        kw = {}
        if n["kind"] == "collect":
            kw[n["over"]] = self.branches(n["of"], n["over"])
        kw.update(self._args(n, self.get))
        self.memo[name] = self.call(n, kw)
        return self.memo[name]

    def items(self, e, kw):
        if self.skip(e, kw):
            return [self.S]
        self.calls[(e["name"], flows.freeze(kw))] += 1
        f = failing(self.fail, e["name"], kw)
        out = flows.expand_values(e, kw)
        if f and (f.get("after") is None or f["after"] <= len(out)):
            if not issubclass(EXC[f["exc"]], self.catch):
                raise Fatal
            if self.g["try_all"] and (e.get("gen", True) or e.get("seq") == "iter") and f.get("after") is not None:
                return out[: f["after"]] + [self.S]
            return [self.S]
        return out

    def branches(self, ename, over):
        e = self.by[ename]
        items = self.overrides[ename] if ename in self.overrides else self.items(e, self._args(e, self.get))
        todo, seen = [over], set()
        while todo:
            n = self.by[todo.pop()]
            if n["name"] in seen or n["name"] in self.overrides:
                continue
            seen.add(n["name"])
            for d in n["deps"]:
                dn = self.by.get(d)
                if dn is not None and dn["kind"] == "block":
                    todo.append(d)
                elif d != ename:
                    self.get(d)
        out = []
        for v in items:
            local = {ename: v}

            def getb(name):
                if name in local:
                    return local[name]
                if name in self.overrides:
                    return self.overrides[name]
                n = self.by.get(name)
                if n is not None and n["kind"] == "block":
                    local[name] = self.call(n, self._args(n, getb))
                    return local[name]
                return self.get(name)

            out.append(getb(over))
        return out


def gen_fail(rng, flow):
    fail = []
    pool = [n for n in flow["nodes"] if n["kind"] != "field"]
    fatal = rng.random() < 0.12
    for n in rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2, 3]))):
        f = {"node": n["name"], "salt": rng.randrange(1 << 20), "exc": rng.choice(["NodeBoom", "NodeBoom", "SubBoom"]),
             "mod": rng.choice([1, 2, 3]) if n["kind"] == "block" else 1}
        if fatal and rng.random() < 0.6:
            f["exc"] = "OtherBoom"
        if n["kind"] == "expand" and rng.random() < 0.7:
            f["after"] = rng.randrange(0, n["width"] + 2)
        fail.append(f)
    return fail


def gen(rng, i, tier):
    flow = flows.gen_flow(rng, par_prob=0.8, rich=rng.random() < 0.3)
    for n in flow["nodes"]:
        if n["kind"] != "field" and not any(n.get(k) for k in ("fields", "loader", "awhen", "deco")) and rng.random() < 0.15:
            n["aes"] = True
            n["deco"] = "@_aes"
    names = sorted(SENT)
    if rng.random() < 0.35:
        flows.oddify(rng, flow, evil=False)
        names = ["none", "zero", "fzero", "elist", "empty", "false", "str"]
    g = {"sentinel": rng.choice(names), "try_all": rng.random() < 0.6, "inject": rng.random() < 0.7,
         "catch": rng.choice(["NodeBoom", "NodeBoom", "Exception"])}
    ex = drivers.gen_exec(rng, flow)
    if g["sentinel"] == "obj":  # identity is lost in serialisation
        for k in ("local", "remote"):
            ex.get(k, {}).pop("ser", None)
    req = flows.par_overrides(rng, flow, flows.gen_request(rng, flow, overrides_prob=0.15))
    req["final"] = [f for f in req["final"] if not any(n["name"] == f and n["kind"] == "expand" for n in flow["nodes"])]
    return {"flow": flow, "req": req, "exec": ex,
            "g": g, "fails": [gen_fail(rng, flow) for _ in range(rng.choice([1, 2, 3]))],
            "sched": common.gen_sched(rng)}


def run(plan, ctx):
    from hamilton.lifecycle import default

    flow, req, g = plan["flow"], plan["req"], plan["g"]
    probe = Probe(flow)
    mod = flows.build_module(flows.source_for(flow), probe)
    common.apply_granularity(ctx)
    ad = default.GracefulErrorAdapter(error_to_catch=EXC.get(g["catch"], Exception), sentinel_value=SENT[g["sentinel"]],
                                      try_all_parallel=g["try_all"], allow_injection=g["inject"])
    dr, _ = drivers.build_driver(mod, plan["exec"], config=req.get("config"), adapters=[ad])

    def body(sim):
        for fail in plan["fails"]:
            ref = GRef(flow, req, g, fail)
            probe.calls.clear()
            probe.raised.clear()
            probe.fail = fail
            try:
                out = dr.execute(list(req["final"]), inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
            except Exception as e:
                fatal = [x for x in probe.raised if isinstance(x, flows.OtherBoom) and g["catch"] != "Exception"]
                if not ref.fatal:
                    raise Violation("unexpected-error", f"{type(e).__name__}: {e}; functions raised {probe.raised!r}")
                if not any(e is x for x in fatal):
                    raise Violation("wrong-error", f"execute raised {e!r}; not to be caught were {fatal!r}")
                continue
            if ref.fatal:
                raise Violation("error-swallowed", f"functions raised {probe.raised!r}, {g['catch']} is to be caught, "
                                f"but execute returned {out!r}")
            if values.canon(out) != values.canon(ref.result):
                raise Violation("wrong-result", f"got {values.canon(out)} expected {values.canon(ref.result)}")
            check_calls(Counter(probe.calls), ref.calls)

    ctx.simulate(body)


def shrink(plan):
    if len(plan["fails"]) > 1:
        for k in range(len(plan["fails"])):
            yield dict(plan, fails=plan["fails"][:k] + plan["fails"][k + 1:])
    for k, fs in enumerate(plan["fails"]):
        for j in range(len(fs)):
            yield dict(plan, fails=plan["fails"][:k] + [fs[:j] + fs[j + 1:]] + plan["fails"][k + 1:])
    for p in p01.shrink(dict(plan, more=[])):
        p.pop("more", None)
        names = {n["name"] for n in p["flow"]["nodes"]}
        p["fails"] = [[f for f in fs if f["node"] in names] for fs in p["fails"]]
        yield p
