"""P21: a saver that reports success has saved the value completely; a failed write is reported."""

import io
import json
import os
import pickle
import threading

from simkit import drivers, flows, kernel, values, vfs
from simkit.kernel import Violation
from scenarios import common, p01

ID = "P21"
FOCUS = common.CORE_FOCUS + (common.H + "io/", common.H + "plugins/yaml_extensions.py",
                             common.H + "plugins/numpy_extensions.py", common.H + "function_modifiers/adapters.py")

# node type -> formats that store it
FMT = {"int": ["pickle", "yaml"], "str": ["file", "pickle", "yaml"], "bytes": ["file", "pickle"],
       "list": ["json", "pickle", "yaml"], "jsondict": ["json", "pickle", "yaml"], "dict": ["json", "pickle", "yaml"],
       "float": ["yaml", "pickle"], "bool": ["yaml", "pickle"], "obj": ["pickle"], "nested": ["pickle"],
       "tuple": ["pickle"], "ndarray": ["npy", "pickle"], "frame": ["csv", "pickle", "parquet", "feather"],
       "bigstr": ["file", "pickle", "yaml"], "biglist": ["json", "pickle"], "bigdict": ["json", "pickle"],
       "bigbytes": ["file", "pickle"], "bigarr": ["npy", "pickle"], "bigframe": ["csv", "pickle"]}
KW = {"csv": {"index": False}}


def preload():
    common.preload_core()
    import hamilton.plugins.numpy_extensions  # noqa
    import hamilton.plugins.pandas_extensions  # noqa
    import hamilton.plugins.yaml_extensions  # noqa
    import pandas as pd

    pd.DataFrame({"a": [1]}).to_csv(io.StringIO())


def gen(rng, i, tier):
    flow = flows.gen_flow(rng, par_prob=0.5, max_width=3)
    conc = rng.random() < 0.25
    for n in flow["nodes"]:
        if n["kind"] in ("plain", "collect") and not n.get("fields") and not n.get("loader"):
            if rng.random() < 0.7:
                n["typ"] = rng.choice([t for t in FMT if t != "int"])
    by = {n["name"]: n for n in flow["nodes"]}
    cand = [n for n in flows.requestable(flow) if by[n]["kind"] != "field" or True]
    req = {"final": rng.sample(cand, rng.randint(0, min(2, len(cand)))), "inputs": dict(flow["inputs"]),
           "overrides": {}, "config": {}}
    for o in flow["optional"]:
        if rng.random() < 0.5:
            req["inputs"][o] = rng.randrange(100)
    saves = []
    for k, nm in enumerate(rng.sample(cand, rng.randint(1, min(4, len(cand))))):
        typ = by[nm].get("typ") or "int"
        s = {"id": f"sv{k}", "node": nm, "fmt": rng.choice(FMT[typ]),
             "how": rng.choice(["dynamic", "dynamic", "static", "deco"]),
             "path": rng.choice(["value", "source"]), "old": rng.choice([None, "same", "long", "short", "size"])}
        if s["how"] == "deco" and (by[nm]["kind"] == "field" or by[nm].get("loader") or by[nm].get("awhen")):
            s["how"] = "dynamic"
        saves.append(s)
    ints = [nm for nm in cand if not by[nm].get("typ")]
    if len(ints) >= 2 and rng.random() < 0.4:
        saves.append({"id": "svc", "nodes": rng.sample(ints, 2), "fmt": rng.choice(["json", "pickle"]),
                      "how": rng.choice(["dynamic", "static"]), "path": "value", "old": None})
    ex = drivers.gen_exec(rng, flow)
    if conc:
        has_par = any(n["kind"] == "expand" for n in flow["nodes"])
        ex = {"kind": "task", "local": {"t": "sync"}, "remote": {"t": "sync"}, "grouping": "blocks"} \
            if has_par else {"kind": "default"}
        for s in saves:
            s["path"] = "source" if "node" in s else "value"
            if "node" not in s:
                s["how"] = "dynamic"
    for k in ("local", "remote"):
        if ex.get(k, {}).get("t") == "remote":
            ex[k]["ser"] = False
    faults = []
    if rng.random() < 0.75:
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(["write", "write", "write", "open_w", "close", "stat", "any"])
            what = {"write": ["short", "short", "EIO", "ENOSPC"], "open_w": ["EACCES", "ENOSPC", "EMFILE", "EROFS"],
                    "close": ["EIO", "ENOSPC"], "stat": ["EIO", "EACCES"], "any": ["EIO", "ENOSPC"]}[op]
            faults.append({"op": op, "nth": rng.randrange({"any": 20, "stat": 8}.get(op, 6)), "what": rng.choice(what),
                           "frac": rng.choice([0.0, 0.3, 0.5, 0.9, 1.0])})
    rfaults = []
    if rng.random() < 0.4:
        rfaults.append({"op": rng.choice(["read", "open_r", "close", "stat"]), "nth": rng.randrange(4),
                        "what": rng.choice(["EIO", "EACCES"])})
    return {"flow": flow, "req": req, "saves": saves, "exec": ex, "faults": faults, "rfaults": rfaults,
            "fail": rng.choice([None, None, None, rng.choice([n["name"] for n in flow["nodes"] if n["kind"] != "field"])]),
            "bad": rng.random() < 0.1, "conc": conc, "hooks": rng.random() < 0.4, "sched": common.gen_sched(rng)}


def decode(fmt, typ, path):
    """What the file holds, read by other means than the code under test."""
    with vfs._io_open(path, "rb") as f:
        raw = f.read()
    if fmt == "json":
        return json.loads(raw.decode())
    if fmt == "pickle":
        return pickle.loads(raw)
    if fmt == "file":
        return raw if typ.endswith("bytes") else raw.decode()
    if fmt == "yaml":
        import yaml

        return yaml.safe_load(io.StringIO(raw.decode()))
    if fmt == "npy":
        import numpy as np

        return np.load(io.BytesIO(raw))
    import pandas as pd

    return {"csv": pd.read_csv, "parquet": pd.read_parquet, "feather": pd.read_feather}[fmt](io.BytesIO(raw))


def encoded(fmt, v):
    """A likely encoding of v, for an older file of the very size the new one will have."""
    try:
        if fmt == "json":
            return json.dumps(v).encode()
        if fmt == "pickle":
            return pickle.dumps(v)
        if fmt == "file":
            return v if isinstance(v, bytes) else v.encode()
        if fmt == "yaml":
            import yaml

            return yaml.dump(v).encode()
        if fmt == "csv":
            return v.to_csv(index=False).encode()
    except Exception:
        pass
    return b"####"


def old_bytes(s, v):
    if s["old"] == "size":
        return b"#" * len(encoded(s["fmt"], v))
    return {"same": b"{}", "long": b"OLD" * 60000, "short": b"O"}[s["old"]]


def dep_types(flow):
    return {n["name"]: n.get("typ") or "int" for n in flow["nodes"]}


LOADER = '''
def out(x: {ann}) -> object:
    return x
'''


def run(plan, ctx):
    from hamilton import base
    from hamilton.function_modifiers import source
    from hamilton.io.materialization import from_, to

    flow, req = plan["flow"], plan["req"]
    typ = dep_types(flow)
    dirs = [os.path.join(ctx.scratch, f"c{k}") for k in range(2 if plan["conc"] else 1)]
    for d in dirs:
        os.mkdir(d)
    saves = plan["saves"]
    where = [{s["id"]: os.path.join(d, f"{s['id']}.{s['fmt']}") for s in saves} for d in dirs]
    dec = {}
    for s in saves:
        if s["how"] == "deco":
            p = f"_source('p_{s['id']}')" if s["path"] == "source" else f"_value({where[0][s['id']]!r})"
            kw = "".join(f", {k}=_value({v!r})" for k, v in KW.get(s["fmt"], {}).items())
            dec.setdefault(s["node"], []).append(f"@_save.{s['fmt']}(path={p}, output_name_={s['id']!r}{kw})")
    fl = dict(flow, nodes=[dict(n, deco="\n".join(dec[n["name"]])) if n["name"] in dec else n
                           for n in flow["nodes"]])
    probe = flows.Probe(fl)
    src = ("from hamilton.function_modifiers import save_to as _save, source as _source, value as _value\n"
           + flows.source_for(fl))
    mod = flows.build_module(src, probe)
    common.apply_granularity(ctx)

    def factory(s, where):
        path = source(f"p_{s['id']}") if s["path"] == "source" else where[s["id"]]
        kw = dict(KW.get(s["fmt"], {}))
        if "nodes" in s:
            kw["combine"] = base.DictResult()
        return getattr(to, s["fmt"])(id=s["id"], dependencies=s.get("nodes") or [s["node"]], path=path, **kw)

    hooks = []
    if plan["hooks"]:
        from hamilton.lifecycle import GraphExecutionHook

        class H(GraphExecutionHook):
            def run_before_graph_execution(self, **k):
                hooks.append("pre")

            def run_after_graph_execution(self, **k):
                hooks.append("post")

        adapters = [H()]
    else:
        adapters = []
    from hamilton import driver as _driver

    static = [factory(s, where[0]) for s in saves if s["how"] == "static"]
    orig = _driver.Builder.build
    if static:
        def build(self):
            self.with_materializers(*static)
            return orig(self)

        _driver.Builder.build = build
    try:
        dr, _ = drivers.build_driver(mod, plan["exec"], adapters=adapters)
    finally:
        _driver.Builder.build = orig
    finals = list(req["final"])
    need = finals + [x for s in saves for x in (s.get("nodes") or [s["node"]])]
    ref = flows.Ref(flow, dict(req, final=list(dict.fromkeys(need))))
    want, old = {}, {}
    for s in saves:
        v = {n: ref.result[n] for n in s["nodes"]} if "nodes" in s else ref.result[s["node"]]
        want[s["id"]] = values.canon(v)
        old[s["id"]] = old_bytes(s, v) if s["old"] else None

    def stype(s):
        return "jsondict" if "nodes" in s else typ.get(s["node"], "int")

    for w in where:
        for s in saves:
            if s["old"]:
                with vfs._io_open(w[s["id"]], "wb") as f:
                    f.write(old[s["id"]])

    def state(s, path):
        """missing / old / complete / other"""
        if not os.path.exists(path):
            return "missing"
        with vfs._io_open(path, "rb") as f:
            raw = f.read()
        if s["old"] and raw == old[s["id"]]:
            return "old"
        try:
            v = decode(s["fmt"], stype(s), path)
        except Exception as e:
            return f"unreadable ({type(e).__name__})"
        return "complete" if values.canon(v) == want[s["id"]] else f"wrong {values.short(values.canon(v))}"

    st = vfs.attach(ctx.scratch, plan["faults"])
    broken = set()  # paths whose own writing met a fault
    step0 = st.step

    def step(op, path=None):
        f = step0(op, path)
        if f is not None and path is not None:
            broken.add(str(path))
        return f

    st.step = step

    def go(w):
        ins = dict(req["inputs"])
        for s in saves:
            if s["path"] == "source":
                ins[f"p_{s['id']}"] = w[s["id"]]
        dyn = [factory(s, w) for s in saves if s["how"] == "dynamic"]
        rest = [s["id"] for s in saves if s["how"] != "dynamic"]
        if dyn:
            meta, out = dr.materialize(*dyn, additional_vars=finals + rest, inputs=ins)
        else:
            meta, out = {}, dr.execute(finals + rest, inputs=ins)
        return dict(meta, **{k: out[k] for k in rest}), {k: out[k] for k in finals}

    def verify_success(w, meta, out):
        st.on = False
        for k in finals:
            if values.canon(out[k]) != values.canon(ref.result[k]):
                raise Violation("wrong-result", f"{k}: got {values.short(values.canon(out[k]))}")
        for s in saves:
            got = state(s, w[s["id"]])
            if got == "complete" or got == "old" and readable_old(s):
                pass
            else:
                raise Violation("saved-file-wrong", f"execution returned but {s['id']} ({s['fmt']} of {stype(s)}) is "
                                f"{got}; faults hit {st.hit}")
            m = meta[s["id"]]
            fm = m.get("file_metadata") if isinstance(m, dict) else None
            if fm is not None and not st.hit:
                size = vfs._R["stat"](w[s["id"]]).st_size
                if fm["size"] != size or fm["path"] != w[s["id"]]:
                    raise Violation("metadata-wrong", f"{s['id']}: {fm['size']} vs {size}; {fm['path']}")
        st.on = True

    def readable_old(s):
        """The value happens to be encoded just like the older file."""
        try:
            return values.canon(decode(s["fmt"], stype(s), where[0][s["id"]])) == want[s["id"]]
        except Exception:
            return False

    def attempt(w, allow):
        try:
            meta, out = go(w)
        except Exception as e:
            if any(e is x for x in probe.raised):
                pass
            elif not allow or not st.hit:
                raise Violation("unexpected-error", f"{type(e).__name__}: {e}; faults hit {st.hit}")
            elif not isinstance(e, OSError):
                raise Violation("error-masked", f"{type(e).__name__}: {str(e)[:200]}; faults hit {st.hit}")
            st.on = False
            for s in saves:
                p = w[s["id"]]
                if p in broken:
                    continue
                got = state(s, p)
                if got not in ("missing", "old", "complete"):
                    raise Violation("other-saver-affected", f"{s['id']} ({s['fmt']}) met no fault but is {got}")
                if got == "missing" and s["old"]:
                    raise Violation("other-saver-affected", f"{s['id']} lost its older file")
            st.on = True
            return False
        verify_success(w, meta, out)
        return True

    def loads(w):
        """Read everything back through the matching loaders."""
        for s in saves:
            t = stype(s)
            if s["fmt"] == "file" and t.endswith("bytes"):
                continue  # no loader for raw bytes
            ann = values.ANN[t]
            lm = flows.build_module("import numpy as _np, pandas as _pd\n" + LOADER.format(ann=ann), None)
            ld, _ = drivers.build_driver(lm, {"kind": "default"})
            for faults in ([plan["rfaults"], []] if plan["rfaults"] else [[]]):
                st.faults, st.n, st.total, st.hit = list(faults), {}, 0, []
                try:
                    _, out = ld.materialize(getattr(from_, s["fmt"])(target="x", path=w[s["id"]]),
                                            additional_vars=["out"], inputs={})
                except Exception as e:
                    if not st.hit:
                        raise Violation("load-failed", f"{s['fmt']} of {t}: {type(e).__name__}: {e}")
                    continue
                got = out["out"]
                if s["fmt"] in ("csv", "parquet", "feather"):  # the reader picks nullable column types; the values are what was saved
                    got = got.astype(object)
                    want_v = ref.result[s["node"]].astype(object)
                    if got.equals(want_v):
                        continue
                if values.canon(got) != want[s["id"]]:
                    raise Violation("load-wrong", f"{s['fmt']} of {t}: {values.short(values.canon(out['out']))}; "
                                    f"faults hit {st.hit}")

    def body(sim):
        if plan["bad"]:
            n0 = len(hooks)
            try:
                dr.materialize(to.pickle(id="bad", dependencies=["no_such_node"], path=os.path.join(dirs[0], "bad")),
                               inputs=dict(req["inputs"]))
            except ValueError:
                pass
            except Exception as e:
                raise Violation("error-masked", f"unknown dependency reported as {type(e).__name__}: {e}")
            else:
                raise Violation("bad-accepted", "a saver of an unknown node was accepted")
        if plan["fail"]:
            probe.fail = [{"node": plan["fail"], "nth": None, "exc": "OtherBoom"}]
            attempt(where[0], True)
            probe.fail = []
        if plan["conc"]:
            errs = []

            def client(w):
                try:
                    attempt(w, True)
                except Violation as v:
                    errs.append(v)

            ts = [threading.Thread(target=client, args=(w,)) for w in where]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
        else:
            attempt(where[0], True)
        st.faults, st.hit = [], []
        broken.clear()
        for w in where:
            if not attempt(w, False):
                raise Violation("unexpected-error", "no fault is left")
        loads(where[-1])

    try:
        ctx.simulate(body)
    finally:
        vfs.detach()


def shrink(plan):
    if len(plan["saves"]) > 1:
        for k in range(len(plan["saves"])):
            yield dict(plan, saves=plan["saves"][:k] + plan["saves"][k + 1:])
    for key, v in (("faults", []), ("rfaults", []), ("fail", None), ("bad", False), ("conc", False), ("hooks", False)):
        if plan[key]:
            yield dict(plan, **{key: v})
    if len(plan["faults"]) > 1:
        for f in plan["faults"]:
            yield dict(plan, faults=[f])
    for k, s in enumerate(plan["saves"]):
        for ch in ({"how": "dynamic"}, {"path": "value"}, {"old": None}):
            if any(s[a] != b for a, b in ch.items()):
                yield dict(plan, saves=plan["saves"][:k] + [dict(s, **ch)] + plan["saves"][k + 1:])
    used = {x for s in plan["saves"] for x in (s.get("nodes") or [s["node"]])}
    for p in p01.shrink(dict(plan, more=[])):
        p.pop("more", None)
        names = {n["name"] for n in p["flow"]["nodes"]}
        if used <= names and (not p["fail"] or p["fail"] in names):
            yield p
