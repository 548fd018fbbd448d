"""P19: telemetry and its configuration file never interfere with execution."""

import asyncio
import configparser
import importlib.util
import io
import json
import os
import re
import socket
import sys
import threading
import urllib.error
import urllib.request

from simkit import aio, drivers, flows, kernel, values, vfs
from simkit.kernel import Violation
from scenarios import common, p07, p15

ID = "P19"
FOCUS = common.CORE_FOCUS + (common.H + "registry.py", common.H + "dataflows/__init__.py", common.H + "contrib/__init__.py")

CONFIGS = {
    "absent": None,
    "empty": "",
    "id": "[DEFAULT]\nanonymous_id = user-7\n",
    "out": "[DEFAULT]\ntelemetry_enabled = false\n",
    "out_id": "[DEFAULT]\nanonymous_id = user-7\ntelemetry_enabled = off\n",
    "out_big": "[DEFAULT]\ntelemetry_enabled = 0\nnote = %s\n" % ("x" * 9000),
    "in_id": "[DEFAULT]\nanonymous_id = user-7\ntelemetry_enabled = yes\n",
    "odd": "[DEFAULT]\ntelemetry_enabled = maybe\n",
    "auto_out": "[DEFAULT]\nhamilton_autoload_extensions = 0\ntelemetry_enabled = False\n",
    "section": "[other]\nkey = value\n",
    "percent_id": "[DEFAULT]\nanonymous_id = 100%\n",
    "percent": "[DEFAULT]\ntelemetry_enabled = %(nothing)s\n",
    "percent_auto": "[DEFAULT]\nhamilton_autoload_extensions = %\n",
    "noheader": "telemetry_enabled = false\n",
    "dup": "[DEFAULT]\na = 1\na = 2\n",
    "garbage": "\x00\x01[[[=\n:::",
    "bytes": b"\xff\xfe\x9f[DEFAULT]\n",
    "colonless": "[DEFAULT]\ntelemetry_enabled\n",
}
ENVS = [None] * 6 + ["false", "False", "0", "no", "off", "true", "1", "maybe", "", "100%", "%(x)s"]
NET = ["ok", "ok", "refused", "timeout", "http500", "hang", "reset", "badcode", "slow_read", "dns"]
FOPS = {"open_r": ["EIO", "EACCES", "EMFILE"], "read": ["EIO"], "open_w": ["EACCES", "ENOSPC", "EROFS", "crash"],
        "write": ["EIO", "ENOSPC", "short", "crash"], "close": ["EIO", "ENOSPC", "crash"], "replace": ["EIO", "crash"],
        "any": ["crash", "EIO"], "stat": ["EACCES"], "unlink": ["EIO"]}


class SecretAdapterBase:
    pass


def preload():
    common.preload_core()
    import hamilton.contrib  # noqa
    import hamilton.dataflows  # noqa
    import hamilton.registry  # noqa


def gen(rng, i, tier):
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        flow = flows.gen_flow(rng, par_prob=0.4, max_plain=4, max_width=3, wide=0)
        mode = rng.choice(["sync", "sync", "async", "none"])
        if mode == "async":
            flow = p07.async_flow(rng)
        fails = []
        if rng.random() < 0.35:
            n = rng.choice([n for n in flow["nodes"] if n["kind"] != "field"])
            fails = [{"node": n["name"], "salt": rng.randrange(1 << 20), "exc": "NodeBoom", "mod": rng.choice([1, 1, 2])}]
        users = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            users.append([{"op": rng.choice(["execute", "execute", "execute", "list", "inspect", "contrib", "materialize",
                                               "badbuild", "missing", "unknown"]),
                           "req": flows.gen_request(rng, flow, overrides_prob=0.3, config=False)}
                          for _ in range(rng.choice([1, 2, 3]))])
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                op = rng.choice(list(FOPS))
                faults.append({"op": op, "nth": int(rng.triangular(0, 6, 0)), "what": rng.choice(FOPS[op]),
                               "frac": rng.choice([0, 0.3, 0.9])})
        lives.append({"flow": flow, "mode": mode, "fails": fails, "users": users, "env": rng.choice(ENVS),
                      "exec": drivers.gen_exec(rng, flow), "faults": faults, "procs": rng.choice([1, 1, 1, 2, 3]),
                      "tool": rng.choice([None] * 4 + ["config_disable_autoload", "config_enable_autoload"]),
                      "adapter": rng.random() < 0.3,
                      "disable": rng.choice([None, None, None, "before", "race"]),
                      "net": [rng.choice(NET) for _ in range(rng.choice([1, 3, 12]))],
                      "nothread": sorted({rng.randrange(6) for _ in range(rng.choice([0, 0, 0, 2]))}),
                      "stall": rng.random() < 0.2})
    return {"config": rng.choice(list(CONFIGS)), "lives": lives, "sched": common.gen_sched(rng)}


# ------------------------------------------------------------------ a process importing the package
def fresh(name):
    """A newly imported copy of a module of the package, as a starting process sees it."""
    path = sys.modules[name].__file__
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    with open(path) as f:
        code = compile(f.read(), path, "exec")
    exec(code, mod.__dict__)
    return mod


def adopt(name, new):
    old = sys.modules[name]
    sys.modules[name] = new
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("hamilton"):
            for k, v in list(vars(m).items()):
                if v is old:
                    setattr(m, k, new)


class Net:
    """The telemetry server and everything between; also notes any other attempt to connect."""

    def __init__(self, sim, plan, life):
        self.sim, self.kinds, self.sent, self.life = sim, plan, [], life
        self.busy = None

    def urlopen(self, req, data=None, timeout=None, **kw):
        k = len(self.sent)
        body = req.data if hasattr(req, "data") else data
        kind = self.kinds[k % len(self.kinds)]
        self.sent.append(body)
        sim = self.sim
        sim.event("send", k, kind)
        sim.count("fault:net_" + kind if kind != "ok" else "net_ok")
        while self.busy is not None and self.busy():
            sim.sleep(1.0)
        sim.sleep(0.05)
        if kind == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
        if kind == "dns":
            sim.sleep(20.0)
            raise urllib.error.URLError(socket.gaierror(-2, "Name or service not known"))
        if kind == "timeout":
            if timeout is None or not isinstance(timeout, (int, float)):
                timeout = socket.getdefaulttimeout()
            sim.sleep(1e7 if timeout is None else timeout)  # the server never answers
            raise TimeoutError("timed out")
        if kind == "hang":
            sim.sleep(600.0)
            raise urllib.error.URLError("gone")
        if kind == "http500":
            raise urllib.error.HTTPError("u", 500, "boom", {}, io.BytesIO(b"x"))
        return Resp(sim, kind)

    def connect(self, *a, **k):
        self.sent.append(b"{}")
        raise OSError(101, "Network is unreachable")


class Resp:
    def __init__(self, sim, kind):
        self.sim, self.kind = sim, kind
        self.code = self.status = 204 if kind == "badcode" else 200

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def getcode(self):
        return self.code

    def close(self):
        pass

    def read(self, *a):
        if self.kind == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        if self.kind == "slow_read":
            self.sim.sleep(30.0)
        return b"ok"


BAD = [  # modules no driver can be built from, with messages that name what is wrong
    "def secretnode(secretinput):\n    return 1\n",
    "def secretnode(secretinput: int) -> int:\n    return 1\n\ndef secretother(secretnode: str) -> int:\n    return 1\n",
]


class Waits:
    """While the network stalls, no thread of the user may spend time waiting."""

    def __init__(self, sim):
        self.sim, self.users, self.found, self.on = sim, set(), [], True
        real = sim.block

        def block(w, deadline=None):
            me, t0 = sim.current.tid, sim.now
            ok = real(w, deadline)
            if self.on and not ok and me in self.users and not isinstance(w, aio.SimLoop) and deadline - t0 >= 0.05:
                self.found.append(deadline - t0)
            return ok

        sim.block = block

    def check(self, k):
        if self.found:
            raise Violation("waits-for-network", f"life {k}: the caller waited {self.found[0]:.3g} s ({len(self.found)} times) "
                            "while the telemetry server did not answer")


def settings(data):
    """(sections and options) or None if the file is not parseable"""
    c = configparser.ConfigParser(interpolation=None)
    try:
        c.read_string(data.decode())
    except Exception:
        return None
    return {s: dict(c[s]) for s in c}


def boolean(s):
    return configparser.ConfigParser.BOOLEAN_STATES.get(s.lower()) if s is not None else None


def enabled(conf, env):
    """What the documentation promises; None: not determined."""
    e = boolean(env)
    if e is not None:
        return e
    if conf is None:
        return None
    c = conf.get("DEFAULT", {}).get("telemetry_enabled")
    b = boolean(c) if c is not None else None
    return b


def run(plan, ctx):
    home = ctx.scratch + "/home"
    os.mkdir(home)
    path = home + "/.hamilton.conf"
    data = CONFIGS[plan["config"]]
    if data is not None:
        data = data if isinstance(data, bytes) else data.encode()
        with open(path, "wb") as f:
            f.write(data)
    for k, lf in enumerate(plan["lives"]):
        before = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                before = f.read()
        r = ctx.life(lambda sim: life(sim, plan, lf, k, home, before), start_time=1000.0 * k)
        check_file(path, before, lf, k)


AUTO = "hamilton_autoload_extensions"


def check_file(path, before, lf, k):
    where = f"life {k}: configuration file"
    now = None
    if os.path.exists(path):
        with open(path, "rb") as f:
            now = f.read()
    if before is None:
        if now is not None and settings(now) is None:
            raise Violation("config-corrupted", f"{where} is unreadable: {now[:80]!r}")
        return
    if now is None:
        raise Violation("config-lost", f"{where} is gone")
    old, new = settings(before), settings(now)
    if old is None:
        if now != before:
            raise Violation("config-overwritten", f"{where} {before[:60]!r} replaced by {now[:60]!r}")
        return
    if new is None:
        raise Violation("config-corrupted", f"{where} {before[:60]!r} became {now[:60]!r}")
    for s in old:
        for key, v in old[s].items():
            if key == AUTO and lf["tool"]:
                continue
            if new.get(s, {}).get(key) != v:
                raise Violation("setting-lost", f"{where}: {key} = {v[:30]} became {new.get(s, {}).get(key)}")


def life(sim, plan, lf, k, home, before):
    os.environ["HOME"] = home
    os.environ.pop("HAMILTON_TELEMETRY_ENABLED", None)
    os.environ.pop("HAMILTON_CONFIG_URI", None)
    os.environ.pop("HAMILTON_AUTOLOAD_EXTENSIONS", None)
    if lf["env"] is not None:
        os.environ["HAMILTON_TELEMETRY_ENABLED"] = lf["env"]
    net = Net(sim, lf["net"], lf)
    urllib.request.urlopen = net.urlopen
    socket.socket.connect = net.connect
    socket.getaddrinfo = net.connect
    st = vfs.attach(home, lf["faults"])
    problems, copies = [], []

    def boot():
        try:
            copies.append((fresh("hamilton.registry"), fresh("hamilton.telemetry")))
        except Exception as e:
            problems.append(Violation("import-fails", f"life {k}: importing hamilton raised {type(e).__name__}: {e}"))

    others = [threading.Thread(target=boot) for _ in range(lf["procs"] - 1)]
    for t in others:
        t.start()
    boot()
    for t in others:
        t.join()
    hit = list(st.hit)
    if problems:
        raise problems[0]
    reg, tel = copies[0]
    if lf["tool"]:
        try:
            getattr(reg, lf["tool"])()
            ok = True
        except Exception:
            ok = False
        if ok and not st.hit:
            st.on = False
            c = settings(open(home + "/.hamilton.conf", "rb").read())
            st.on = True
            got = c and c.get("DEFAULT", {}).get(AUTO)
            if (got == "0") != (lf["tool"] == "config_disable_autoload"):
                raise Violation("tool-without-effect", f"life {k}: {lf['tool']} left {got!r}")
        sim.event("tool", ok)
    st.on = False
    conf = settings(before) if before is not None else {"DEFAULT": {}}
    want = enabled(conf, lf["env"])
    if any(op in ("open_r", "read", "any", "stat", "close") for op, _, _ in hit) and boolean(lf["env"]) is None:
        want = None  # the setting could not be read
    adopt("hamilton.telemetry", tel)
    if lf["disable"] == "before":
        tel.disable_telemetry()
        want = False
    if lf["stall"]:
        lf = dict(lf, flow=dict(lf["flow"], nodes=[{a: b for a, b in n.items() if a != "dur"} for n in lf["flow"]["nodes"]]))
    try:
        if lf["mode"] == "sync":
            use_sync(sim, plan, lf, k, net, tel)
        elif lf["mode"] == "async":
            use_async(sim, plan, lf, k, net, tel)
    finally:
        net.busy = None
    finish(k)
    if want is False and net.sent:
        raise Violation("sent-though-disabled", f"life {k}: {len(net.sent)} requests; env {lf['env']!r}, "
                        f"config {(before or b'')[:60]!r}, disable_telemetry {lf['disable']}")
    words = {n["name"] for n in lf["flow"]["nodes"]} | set(lf["flow"]["inputs"]) | {
        "secretflow", "SecretAdapter", "secretnode", "secretinput", "secretother", "secretfield"}
    for b in net.sent:
        text = b.decode() if isinstance(b, bytes) else str(b)
        json.loads(text)
        text = re.sub(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", "", text)
        bad = words & set(re.findall(r"\w+", text))
        if bad or "/home" in text or " fails" in text:
            raise Violation("user-data-sent", f"life {k}: {sorted(bad)} in {text[:300]}")
    sim.count("telemetry_sent", len(net.sent))


def finish(k):
    """What the interpreter waits for before it exits."""
    for t in list(threading._active.values()):
        if t is not threading.current_thread() and not t.daemon and not getattr(t, "_sim_pool", False) \
                and "ThreadPoolExecutor" not in t.name:
            t.join(1e6)
            if t.is_alive():
                raise Violation("exit-blocked", f"life {k}: a telemetry thread never ends, so neither does the process")


def after_disable(net, tel, k, use):
    """Once disabled, nothing further is sent by anything that starts from now on."""
    tel.disable_telemetry()
    finish(k)
    n = len(net.sent)
    use()
    finish(k)
    if len(net.sent) > n:
        raise Violation("sent-though-disabled", f"life {k}: {len(net.sent) - n} requests by calls after disable_telemetry()")


def fail_threads(lf, sim):
    """The k-th thread started from the telemetry module cannot be started."""
    real = threading.Thread.start
    n = [0]

    def start(self):
        tgt = getattr(self, "_target", None)
        if getattr(tgt, "__module__", "") == "hamilton.telemetry":
            n[0] += 1
            if n[0] - 1 in lf["nothread"]:
                sim.count("fault:no_thread")
                raise RuntimeError("can't start new thread")
        return real(self)

    if lf["nothread"]:
        threading.Thread.start = start


def make_adapters(lf):
    if not lf["adapter"]:
        return []
    from hamilton.lifecycle import base

    class SecretAdapter(base.BasePreNodeExecute):
        def pre_node_execute(self, **kw):
            pass

    return [SecretAdapter()]


def use_sync(sim, plan, lf, k, net, tel):
    import hamilton.contrib
    from hamilton import dataflows

    flow = lf["flow"]
    probe = p15.Probe(flow, fail=lf["fails"])
    mod = flows.build_module(flows.source_for(flow), probe, name="secretflow")
    mod.__file__ = "/somewhere/secretflow.py"
    fail_threads(lf, sim)
    errs = []
    busy = [len(lf["users"])]
    if lf["stall"]:
        net.busy = lambda: busy[0] > 0

    waits = Waits(sim) if lf["stall"] else None

    def actions(dr, acts, u):
        for a in acts:
            one(dr, a)
            if lf["disable"] == "race" and u == 0:
                tel.disable_telemetry()

    def expect_error(fn):
        try:
            fn()
        except Exception as e:
            if "tracking is disabled" in str(e):
                raise
            return
        raise Violation("no-error", f"life {k}: an invalid request was accepted")

    def one(dr, a):
        req = a["req"]
        if a["op"] == "badbuild":
            bad = flows.build_module(BAD[len(req["final"]) % len(BAD)], probe, name="secretflow")
            expect_error(lambda: drivers.build_driver(bad, lf["exec"]))
        elif a["op"] == "missing":
            if ref_inputs(flow, req):
                expect_error(lambda: dr.execute(list(req["final"]), inputs={}))
        elif a["op"] == "unknown":
            expect_error(lambda: dr.execute(["secretnode"], inputs=dict(req["inputs"])))
        elif a["op"] in ("execute", "materialize"):
            try:
                if a["op"] == "execute":
                    out = dr.execute(list(req["final"]), inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
                else:
                    _, out = dr.materialize(additional_vars=list(req["final"]), inputs=dict(req["inputs"]),
                                            overrides=dict(req["overrides"]))
            except Exception as e:
                if not any(e is x for x in probe.raised):
                    raise
                return
            ref = flows.Ref(flow, req)
            if values.canon(out) != values.canon(ref.result):
                raise Violation("wrong-result", f"life {k}: {values.canon(out)}, expected {values.canon(ref.result)}")
        elif a["op"] == "list":
            got = {v.name for v in dr.list_available_variables()}
            if not {n["name"] for n in flow["nodes"]} <= got:
                raise Violation("wrong-result", f"list_available_variables: {got}")
        elif a["op"] == "inspect":
            dataflows.inspect_module(mod)
        elif a["op"] == "contrib":
            with hamilton.contrib.catch_import_errors("hamilton.contrib.user.someone.thing", "/x/y.py", None):
                pass

    def user(u):
        if waits:
            waits.users.add(sim.current.tid)
        try:
            dr = drivers.build_driver(mod, lf["exec"], adapters=make_adapters(lf))[0]
            actions(dr, lf["users"][u], u)
        except Violation as v:
            errs.append(v)
        except Exception as e:
            errs.append(Violation("new-error", f"life {k} user {u}: {type(e).__name__}: {e}"))
        finally:
            busy[0] -= 1

    ts = [threading.Thread(target=user, args=(u,)) for u in range(len(lf["users"]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if waits:
        waits.check(k)
    net.busy = None
    if lf["disable"] == "race" and not errs:
        lf = dict(lf, disable=None)
        after_disable(net, tel, k, lambda: user(0))
    if errs:
        raise errs[0]


def ref_inputs(flow, req):
    """Inputs without which the request must be refused."""
    try:
        flows.Ref(flow, dict(req, inputs={}, overrides={}))
    except Exception:
        return True
    return False


def use_async(sim, plan, lf, k, net, tel):
    flow = lf["flow"]
    probe = p07.AProbe(flow)
    mod = flows.build_module(flows.source_for(flow), probe, name="secretflow")
    fail_threads(lf, sim)
    errs = []
    busy = [len(lf["users"])]
    if lf["stall"]:
        net.busy = lambda: busy[0] > 0

    waits = Waits(sim) if lf["stall"] else None
    if waits:
        waits.users.add(sim.current.tid)

    async def main():
        async def user(u):
            try:
                p07.CLIENT.set((u, 0))
                if lf["fails"]:
                    probe.fail_for[u] = lf["fails"][0]["node"]
                dr = await p07.make_driver(mod, u % 2 == 0)
                for a in lf["users"][u]:
                    req = a["req"]
                    ref = flows.Ref(flow, req)
                    try:
                        out = await dr.execute(list(req["final"]), inputs=dict(req["inputs"]), overrides=dict(req["overrides"]))
                    except flows.NodeBoom:
                        continue
                    if out != ref.result:
                        raise Violation("wrong-result", f"{out}, expected {ref.result}")
                    if lf["disable"] == "race" and u == 0:
                        tel.disable_telemetry()
            except Violation as v:
                errs.append(v)
            except Exception as e:
                errs.append(Violation("new-error", f"life {k} user {u}: {type(e).__name__}: {e}"))
            finally:
                busy[0] -= 1

        await asyncio.gather(*[user(u) for u in range(len(lf["users"]))])
        net.busy = None
        if waits:
            waits.on = False
        await asyncio.get_running_loop().shutdown_default_executor()

    aio.run(main())
    if waits:
        waits.check(k)
    if errs:
        raise errs[0]


def shrink(plan):
    ls = plan["lives"]

    def rep(k, **kw):
        return dict(plan, lives=ls[:k] + [dict(ls[k], **kw)] + ls[k + 1:])

    if len(ls) > 1:
        for k in range(len(ls)):
            yield dict(plan, lives=ls[:k] + ls[k + 1:])
    if plan["config"] != "absent":
        yield dict(plan, config="absent")
    for k, lf in enumerate(ls):
        for key, v in (("mode", "none"), ("env", None), ("faults", []), ("procs", 1), ("tool", None), ("adapter", False),
                       ("disable", None), ("net", ["ok"]), ("nothread", []), ("stall", False), ("fails", [])):
            if lf[key] != v:
                yield rep(k, **{key: v})
        if len(lf["faults"]) > 1:
            for j in range(len(lf["faults"])):
                yield rep(k, faults=lf["faults"][:j] + lf["faults"][j + 1:])
        us = lf["users"]
        if len(us) > 1:
            for j in range(len(us)):
                yield rep(k, users=us[:j] + us[j + 1:])
        for j, s in enumerate(us):
            if len(s) > 1:
                for n in range(len(s)):
                    yield rep(k, users=us[:j] + [s[:n] + s[n + 1:]] + us[j + 1:])
    yield from common.shrink_sched(plan)
