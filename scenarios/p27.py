"""P27: dataflows pulled from the hub are there completely or not at all."""

import http.client
import importlib
import io
import json
import os
import socket
import sys
import threading
import types
import urllib.error
import urllib.request

from simkit import vfs
from simkit.kernel import Violation
from scenarios import common, p19

ID = "P27"
FOCUS = (common.H + "dataflows/__init__.py",)
FILES = ["__init__.py", "requirements.txt", "README.md", "valid_configs.jsonl", "tags.json"]
NET = ["refused", "dns", "timeout", "http500", "http429", "http404", "reset", "incomplete", "slow", "empty"]
FOPS = {"open_w": ["EACCES", "ENOSPC", "EROFS", "EMFILE"], "write": ["EIO", "ENOSPC", "short"], "close": ["EIO", "ENOSPC"],
        "replace": ["EIO", "EACCES"], "mkdir": ["EACCES", "ENOSPC", "EIO"], "unlink": ["EIO"], "stat": ["EIO"],
        "open_r": ["EIO", "EACCES"], "read": ["EIO"], "any": ["EIO", "EACCES"]}
BRANCHES = ["main", "dev", "feature/x"]
REQS = [("", True), ("packaging", True), ("pandas\nnumpy", True), ("pandas>=1.0", True), ("numpy==99.0\npandas<3,>1\n", True),
        ("no-such-package", False), ("pandas\nno-such-package==1.0\n", False), ("# none\n\npandas ~= 2.0  # yes\n", True),
        ("pandas[test]>1; python_version>'3.0'\n", True)]


def preload():
    common.preload_core()
    import hamilton.dataflows  # noqa


# ------------------------------------------------------------------ the hub
def text_of(flow, version, file):
    """Content of a file of a version of a dataflow."""
    who = f"{flow['user'] or 'DAGWORKS'}/{flow['name']}@{version}"
    k = sum(map(ord, who)) % 97
    pad = "".join(f"# {who} line {i} {file} é\n" for i in range(flow["pad"] + k % 5))
    if file == "__init__.py":
        return (f"import math\n{pad}TOKEN = {who!r}\n\n\ndef first(x: int) -> int:\n    return x + {k}\n\n\n"
                f"def second(first: int, y: int) -> int:\n    return first * y\n\n\ndef last_{k}(second: int) -> int:\n"
                f"    return second - {k}\n\n\nTAIL = {who!r}\n")
    if file == "requirements.txt":
        return REQS[flow["req"]][0]
    if file == "README.md":
        return f"# {who}\n{pad}\nneedle-{k}\n"
    if file == "valid_configs.jsonl":
        return '{}\n{"k": %d}\n' % k
    return json.dumps({"schema": "1.0", "who": who})


class Hub:
    """GitHub and the hub's web server, and everything between them and the client."""

    def __init__(self, sim, plan, kinds):
        self.sim, self.plan, self.kinds, self.n = sim, plan, kinds, 0
        self.log = {}  # thread: its requests (url, failed)
        self.raw = {}
        for fl in plan["flows"]:
            where = f"user/{fl['user']}" if fl["user"] else "dagworks"
            for v in fl["versions"]:
                for f in FILES:
                    if f != fl.get("lacks"):
                        self.raw[f"{v}/contrib/hamilton/contrib/{where}/{fl['name']}/{f}"] = text_of(fl, v, f)

    def content(self, url):
        head = "https://raw.githubusercontent.com/dagworks-inc/hamilton/"
        if url.startswith(head):
            return self.raw.get(url[len(head):])
        head = "https://api.github.com/repos/DAGWorks-Inc/hamilton/git/refs/heads/"
        if url.startswith(head) and url[len(head):] in self.plan["heads"]:
            return json.dumps({"ref": "x", "object": {"sha": head_at(self.plan, url[len(head):], self.sim.now), "type": "commit"}})
        head = "https://hub.dagworks.io/commits/"
        if url.startswith(head):
            for fl in self.plan["flows"]:
                if url[len(head):] == (f"Users/{fl['user']}" if fl["user"] else "DAGWorks") + f"/{fl['name']}/commit.txt":
                    return "".join(f"[commit::{v}][ts::{t}]\n" for t, v in reversed(published(fl, self.sim.now)))
        return None

    def urlopen(self, req, data=None, timeout=None, **kw):
        url = req if isinstance(req, str) else req.full_url
        sim = self.sim
        kind = self.kinds[self.n % len(self.kinds)]
        self.n += 1
        if kind == "empty" and "/commit.txt" not in url:
            kind = "ok"  # content that is not there cannot be told from an empty file
        rec = [url, kind not in ("ok", "slow")]
        self.log.setdefault(sim.current.tid, []).append(rec)
        sim.count("fault:net_" + kind if kind != "ok" else "net_ok")
        sim.event("get", url, kind)
        sim.sleep(0.05)
        if kind == "slow":
            sim.sleep(7.0)
        if kind == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
        if kind == "dns":
            raise urllib.error.URLError(socket.gaierror(-2, "Name or service not known"))
        if kind == "timeout":
            sim.sleep(20.0)
            raise urllib.error.URLError(TimeoutError("timed out"))
        for code, why in ((500, "oops"), (429, "rate limited"), (404, "Not Found")):
            if kind == f"http{code}":
                raise urllib.error.HTTPError(url, code, why, {}, io.BytesIO(b"x"))
        body = self.content(url)
        if body is None:
            raise urllib.error.HTTPError(url, 404, "Not Found", {}, io.BytesIO(b"x"))
        return Resp(sim, kind, b"<html>busy</html>" if kind == "empty" else body.encode())


class Resp:
    status = code = 200

    def __init__(self, sim, kind, body):
        self.sim, self.kind, self.body = sim, kind, body
        self.headers = {"Content-Length": str(len(body))}
        self.length = len(body)
        if kind == "incomplete":
            self.body = body[:len(body) // 2]

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def getcode(self):
        return 200

    def close(self):
        pass

    def read(self, n=-1):
        self.sim.sleep(0.01)
        if self.kind == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        b, self.body = (self.body, b"") if n is None or n < 0 else (self.body[:n], self.body[n:])
        self.length -= len(b)
        if self.kind == "incomplete" and (n is None or n < 0):  # (reading in pieces just ends early, as in CPython)
            raise http.client.IncompleteRead(b, self.length)
        return b


def published(fl, now):
    return [(t, v) for t, v in zip(fl["times"], fl["versions"]) if t <= now]


def head_at(plan, branch, now):
    return [s for t, s in plan["heads"][branch] if t <= now][-1]


# ------------------------------------------------------------------ plans
def sha(rng):
    return "%040x" % rng.getrandbits(160)


def gen(rng, i, tier):
    n_lives = rng.choice([1, 1, 2, 2, 3])
    flws = []
    for j in range(rng.choice([1, 1, 2, 3])):
        nv = rng.choice([1, 1, 2, 3])
        times = sorted([0.0] + [round(rng.uniform(0, 1000.0 * n_lives), 1) for _ in range(nv - 1)])
        flws.append({"user": rng.choice([None, "u1", "u1", "u2"]), "name": f"flow_{'abc'[j]}", "versions": [sha(rng) for _ in range(nv)],
                     "times": times, "pad": rng.choice([0, 3, 40, 400]), "req": rng.randrange(len(REQS))})
        if rng.random() < 0.05:
            flws[-1]["lacks"] = rng.choice(FILES)
    if len(flws) > 1 and rng.random() < 0.5:  # the same commit, as in a repository
        flws[1]["versions"][0] = flws[0]["versions"][0]
    heads = {b: [(0.0, sha(rng))] + sorted((round(rng.uniform(0, 1000.0 * n_lives), 1), sha(rng)) for _ in range(rng.choice([0, 1, 4])))
             for b in BRANCHES}
    lives = []
    for k in range(n_lives):
        n = rng.choice([1, 1, 2, 3])
        lf = {"clients": [gen_ops(rng, flws, n) for _ in range(n)], "net": ["ok"], "faults": []}
        if n > 1 and rng.random() < 0.5:  # they want the same
            lf["clients"][1] = [dict(o) for o in lf["clients"][0]]
        r = rng.random()
        if r < 0.4:
            lf["net"] = [rng.choice(NET) if rng.random() < 0.15 else "ok" for _ in range(rng.choice([5, 20, 41]))]
        elif r < 0.5:
            lf["net"] = ["ok"] * rng.randrange(12) + [rng.choice(NET)] * 500
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                op = rng.choice(list(FOPS))
                lf["faults"].append({"op": op, "nth": int(rng.triangular(0, 40, 0)), "what": rng.choice(FOPS[op]),
                                     "frac": rng.choice([0, 0.3, 0.9])})
        if rng.random() < 0.45:
            if rng.random() < 0.4:
                lf["crash"] = {"step": int(2 ** rng.uniform(3, 11))}
            else:
                lf["crash"] = {"io": {"op": rng.choice(["any", "any", "write", "replace", "mkdir", "close", "open_w", "unlink"]),
                                      "nth": int(rng.triangular(0, 30, 0)), "what": "crash", "frac": rng.choice([0, 0.5, 1])}}
        if rng.random() < 0.3:
            lf["wall"] = rng.choice([-4000.0, -70.0, 90.0, 5000.0])
        lives.append(lf)
    return {"stray": rng.random() < 0.3, "flows": flws, "heads": heads, "lives": lives, "salt": rng.randrange(1 << 20), "sched": common.gen_sched(rng)}


def gen_ops(rng, flws, n):
    out = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        j = rng.randrange(len(flws))
        op = rng.choice(["pull", "import", "import", "import", "list", "find", "inspect", "install", "deps", "copy", "latest",
                         "resolve", "resolve", "sleep", "local", "module"] + (["clear"] if n == 1 else []))
        ver = rng.choice(["latest", "latest", "unknown"] + flws[j]["versions"] * 2)
        o = {"op": op, "flow": j, "version": ver, "overwrite": rng.random() < 0.25}
        if op in ("list", "find"):
            o["version"] = rng.choice([None, None] + flws[j]["versions"])
            o["user"] = rng.choice([None, None, "u1", "u2"])
            o["broad"] = rng.choice([0, 1, 2, 3])
        if op == "resolve":
            o["branch"] = rng.choice(BRANCHES)
            o["again"] = rng.choice([0, 10.0, 59.0, 61.0, 200.0])
            o["jump"] = rng.choice([None, None, -300.0, 45.0])
        if op == "sleep":
            o["secs"] = rng.choice([1.0, 30.0, 200.0])
        if op == "copy":
            o["rename"] = rng.choice([None, "mine", "other"])
        out.append(o)
    return out


# ------------------------------------------------------------------ a client
class Client:
    def __init__(self, sim, plan, hub, st, root, k, c, have, shaky):
        self.sim, self.plan, self.hub, self.st, self.root = sim, plan, hub, st, root
        self.where = f"life {k} client {c}"
        self.have = have  # versions completely there, as far as anybody was told (shared by the life's clients)
        self.shaky = shaky  # a removal was interrupted: directories may be incomplete
        self.alone = True
        self.m = p19.fresh("hamilton.dataflows")
        self.mod = None
        self.resolved = {}  # branch: until when it may be answered from memory

    def fail(self, kind, msg):
        raise Violation(kind, f"{self.where}: {msg}")

    # -- helpers
    def real(self, path):
        with vfs._io_open(path, newline="") as f:
            return f.read()

    def folder(self, fl, v):
        m = self.m
        return m.USER_PATH.format(commit_ish=v, user=fl["user"], dataflow=fl["name"]) if fl["user"] else \
            m.OFFICIAL_PATH.format(commit_ish=v, dataflow=fl["name"])

    def complete(self, fl, v):
        """None if it is there completely, else what is wrong."""
        d = self.folder(fl, v)
        for f in FILES:
            try:
                t = self.real(os.path.join(d, f))
            except OSError as e:
                return f"{f}: {type(e).__name__}"
            want = text_of(fl, v, f)
            if t != want:
                return f"{f} has {len(t)} of {len(want)} characters" if len(t) != len(want) else f"{f} differs"
        return None

    def reqs(self):
        return self.hub.log.get(self.sim.current.tid, [])

    def call(self, name, *a, **k):
        """(result, exception, whether something went wrong around the call, the requests made)"""
        n, h = len(self.reqs()), len(self.st.hit)
        res = exc = None
        try:
            res = getattr(self.m, name)(*a, **k)
        except Violation:
            raise
        except Exception as e:
            exc = e
        mine = self.reqs()[n:]
        self.io = len(self.st.hit) > h  # a file operation failed meanwhile
        faulty = self.io or any(f for _, f in mine)
        self.sim.event("called", name, type(exc).__name__ if exc else "ok")
        return res, exc, faulty, [u for u, _ in mine]

    def versions(self, fl, t0, ver):
        """The versions a call made since t0 may have meant."""
        if ver == "latest":
            return {v for v in fl["versions"] if v in [x for _, x in published(fl, self.sim.now)]
                    and v not in [x for _, x in published(fl, t0)][:-1]}
        return {ver}

    def got(self, fl, v, n0=None):
        bad = self.complete(fl, v)
        if bad is not None:
            self.fail("incomplete", f"{fl['user']}/{fl['name']} {v[:7]} was pulled without an error, but {bad}")
        if "lacks" not in fl:
            self.have.add((self.plan["flows"].index(fl), v))
            self.sim.event("have", self.plan["flows"].index(fl), v)

    def check_module(self, mod, fl, vs):
        v = getattr(mod, "__version__", None)
        if v not in vs:
            self.fail("wrong-version", f"import of {fl['name']} returned version {v}, expected {sorted(x[:7] for x in vs)}")
        want = f"{fl['user'] or 'DAGWORKS'}/{fl['name']}@{v}"
        if getattr(mod, "TOKEN", None) != want or getattr(mod, "TAIL", None) != want:
            self.fail("wrong-module", f"module imported for {want} is {getattr(mod, 'TOKEN', None)} … {getattr(mod, 'TAIL', None)}")
        if mod.first(3) != 3 + sum(map(ord, want)) % 97:
            self.fail("wrong-module", f"function of {want} computes {mod.first(3)}")
        if self.alone and sys.modules.get(fl["name"]) is not mod:
            self.fail("not-registered", f"sys.modules[{fl['name']!r}] is not the imported module")
        return v

    # -- operations
    def do(self, o):
        fl = self.plan["flows"][o["flow"]]
        ver = "0" * 40 if o["version"] == "unknown" else o["version"]
        getattr(self, "op_" + o["op"])(o, fl, ver)

    def op_sleep(self, o, fl, ver):
        self.sim.sleep(o["secs"])

    def op_local(self, o, fl, ver):
        """The user's own module of that name, as after copy()."""
        sys.modules[fl["name"]] = types.ModuleType(fl["name"])

    def op_latest(self, o, fl, ver):
        t0 = self.sim.now
        v, exc, faulty, _ = self.call("latest_commit", fl["name"], fl["user"])
        if exc is not None:
            if not faulty:
                self.fail("latest-fails", f"latest_commit raised {exc!r}")
        elif v not in self.versions(fl, t0, "latest"):
            self.fail("wrong-latest", f"latest_commit({fl['name']}) = {v}, published {published(fl, self.sim.now)}")

    def op_resolve(self, o, fl, ver):
        for again in range(2 if o["again"] else 1):
            if again:
                self.sim.sleep(o["again"])
                if o["jump"]:
                    self.sim.wall_offset += o["jump"]
                    self.sim.count("fault:clock_jump")
            b, t0 = o["branch"], self.sim.now
            v, exc, faulty, reqs = self.call("resolve_latest_branch_commit", b)
            if exc is not None:
                if not faulty:
                    self.fail("resolve-fails", f"resolve_latest_branch_commit({b!r}) raised {exc!r}")
                continue
            heads = self.plan["heads"][b]
            ok = [s for n, (t, s) in enumerate(heads) if t <= self.sim.now and (n + 1 == len(heads) or heads[n + 1][0] >= t0 - 60.0 - 15.0)]
            if v not in ok:
                who = [x for x in BRANCHES if v in [s for _, s in self.plan["heads"][x]]]
                self.fail("wrong-commit", f"resolve_latest_branch_commit({b!r}) = {v[:7]} at {t0:.1f} s, a commit of {who}, heads {[(t, s[:7]) for t, s in heads]}")
            if reqs:
                if t0 < self.resolved.get(b, -1):
                    self.fail("asks-again", f"branch {b} was resolved {60 - self.resolved[b] + t0:.0f} s ago and is asked for again")
                self.resolved[b] = t0 + 59.5

    def op_pull(self, o, fl, ver):
        t0, key = self.sim.now, (o["flow"], ver)
        had = key in self.have
        _, exc, faulty, reqs = self.call("pull_module", fl["name"], fl["user"], version=ver, overwrite=o["overwrite"])
        vs = self.versions(fl, t0, ver)
        if had and self.complete(fl, ver) is not None:
            self.fail("damaged", f"pull_module({fl['name']}, {ver[:7]}, overwrite={o['overwrite']}) damaged the version that was there: {self.complete(fl, ver)}")
        if had and not o["overwrite"] and not self.io:
            if any("raw.githubusercontent" in u for u in reqs):
                self.fail("downloads-again", f"pull_module of a version that is there made {len(reqs)} requests")
            if exc is None:
                self.fail("not-refused", f"pull_module of {fl['name']} {ver[:7]}, which is there, without overwrite raised nothing")
        if exc is None:
            if ver == "0" * 40 or "lacks" in fl:
                self.fail("pulled-nothing", f"pull_module of something that does not exist succeeded: {fl['name']} {ver[:7]}")
            if len(vs) == 1:
                self.got(fl, *vs)
            elif all(self.complete(fl, v) for v in vs):
                self.fail("incomplete", f"pull_module({fl['name']}, 'latest'): none of {sorted(vs)} is there")
        elif not faulty and ver != "0" * 40 and "lacks" not in fl:
            if isinstance(exc, ValueError) and not o["overwrite"] and any(self.complete(fl, v) is None for v in vs):
                return  # it is there already
            self.fail("pull-fails", f"pull_module({fl['name']}, {ver[:7]}) raised {type(exc).__name__}: {exc}; there: "
                      f"{[self.complete(fl, v) for v in vs]}")

    def op_import(self, o, fl, ver):
        t0, key = self.sim.now, (o["flow"], ver)
        had = key in self.have
        mod, exc, faulty, reqs = self.call("import_module", fl["name"], fl["user"], version=ver, overwrite=o["overwrite"])
        if exc is not None:
            if had and not o["overwrite"] and not self.io:
                self.fail("import-fails", f"import_module of {fl['name']} {ver[:7]}, which is there, raised {type(exc).__name__}: {exc}")
            if not faulty and ver != "0" * 40 and "lacks" not in fl:
                self.fail("import-fails", f"import_module({fl['name']}, {ver[:7]}, overwrite={o['overwrite']}) raised {type(exc).__name__}: {exc}")
            if had and self.complete(fl, ver) is not None:
                self.fail("damaged", f"import_module damaged the version that was there: {self.complete(fl, ver)}")
            return
        if ver == "0" * 40 or "lacks" in fl:
            self.fail("pulled-nothing", f"import_module of something that does not exist succeeded: {fl['name']} {ver[:7]}")
        if had and not o["overwrite"] and reqs and not self.io:
            self.fail("downloads-again", f"import_module of a version that is there made {len(reqs)} requests")
        if o["overwrite"] and not any("raw.githubusercontent" in u for u in reqs):
            self.fail("not-overwritten", f"import_module({fl['name']}, overwrite=True) did not download")
        v = self.check_module(mod, fl, self.versions(fl, t0, ver))
        self.got(fl, v)
        self.mod = (mod, fl, v)

    def matching(self, o, keys):
        out = set()
        for j, v in keys:
            fl = self.plan["flows"][j]
            if fl["user"] and (not o["version"] or v == o["version"]) and (not o["user"] or fl["user"] == o["user"]):
                out.add((v, fl["user"], fl["name"]))
        return out

    def op_list(self, o, fl, ver):
        must = self.matching(o, self.have)
        res, exc, faulty, reqs = self.call("list", version=o["version"], user=o["user"])
        if exc is not None:
            if not faulty:
                self.fail("list-fails", f"list({o['version']}, {o['user']}) raised {type(exc).__name__}: {exc}")
            return
        self.listed("list", o, res, must, faulty, self.matching(o, self.every()))

    def every(self):
        return {(j, v) for j, fl in enumerate(self.plan["flows"]) for v in fl["versions"]}

    def listed(self, what, o, res, must, faulty, may):
        if len(set(res)) != len(res):
            self.fail("wrong-list", f"{what} names something twice: {res}")
        res = set(map(tuple, res))
        if not faulty and must - res:
            self.fail("wrong-list", f"{what}({o['version']}, {o['user']}) lacks {sorted(must - res)}")
        if res - may:
            self.fail("wrong-list", f"{what}({o['version']}, {o['user']}) names {sorted(res - may)}")
        for v, u, name in res:
            if self.shaky:
                break
            fl = [f for f in self.plan["flows"] if f["user"] == u and f["name"] == name][0]
            bad = self.complete(fl, v)
            if bad is not None:
                self.fail("lists-incomplete", f"{what} names {u}/{name} {v[:7]}, of which {bad}")

    def op_find(self, o, fl, ver):
        v0 = fl["versions"][0]
        query = f"needle-{sum(map(ord, '%s/%s@%s' % (fl['user'] or 'DAGWORKS', fl['name'], v0))) % 97}"
        if o.get("broad"):
            query = ["needle-", "def second(", f"/{fl['name']}@"][o["broad"] - 1]
        hits = {(j, v) for j, v in self.every()
                if any(query in text_of(self.plan["flows"][j], v, f) for f in ("__init__.py", "README.md"))}
        must = self.matching(o, self.have & hits)
        res, exc, faulty, reqs = self.call("find", query, version=o["version"], user=o["user"])
        if exc is not None:
            if not faulty:
                self.fail("find-fails", f"find raised {type(exc).__name__}: {exc}")
            return
        self.listed("find", o, list(res), must, faulty, self.matching(o, hits))

    def op_inspect(self, o, fl, ver):
        t0 = self.sim.now
        had = (o["flow"], ver) in self.have
        res, exc, faulty, reqs = self.call("inspect", fl["name"], fl["user"], version=ver)
        vs = self.versions(fl, t0, ver)
        if exc is not None:
            if had and not faulty:
                self.fail("inspect-fails", f"inspect of {fl['name']} {ver[:7]}, which is there, raised {type(exc).__name__}: {exc}")
            if not faulty and not isinstance(exc, ValueError) and not self.shaky:
                self.fail("inspect-fails", f"inspect({fl['name']}, {ver[:7]}) raised {type(exc).__name__}: {exc}")
            return
        if res.version not in vs or ver == "0" * 40:
            self.fail("wrong-inspect", f"inspect({fl['name']}, {ver[:7]}) describes {res.version}")
        want = [x.strip() for x in text_of(fl, res.version, "requirements.txt").splitlines()]
        conf = text_of(fl, res.version, "valid_configs.jsonl").split()
        if res.python_dependencies != want or [x.replace(" ", "") for x in res.configurations] != [
                x.strip().replace(" ", "") for x in text_of(fl, res.version, "valid_configs.jsonl").splitlines()]:
            self.fail("wrong-inspect", f"inspect({fl['name']}) = {res.python_dependencies}, {res.configurations}; expected {want}, {conf}")

    def op_install(self, o, fl, ver):
        had = (o["flow"], ver) in self.have
        res, exc, faulty, reqs = self.call("install_dependencies_string", fl["name"], fl["user"], version=ver)
        if exc is not None:
            if not faulty:
                self.fail("install-fails", f"install_dependencies_string raised {type(exc).__name__}: {exc}")
        elif had and not faulty and (not res.startswith("pip install -r ")
                                     or self.real(res[len("pip install -r "):]) != text_of(fl, ver, "requirements.txt")):
            self.fail("wrong-install", f"install_dependencies_string({fl['name']}, {ver[:7]}) = {res!r}")

    def op_deps(self, o, fl, ver):
        had = (o["flow"], ver) in self.have
        res, exc, faulty, reqs = self.call("are_py_dependencies_satisfied", fl["name"], fl["user"], version=ver)
        if exc is not None:
            if not faulty:
                self.fail("deps-fails", f"are_py_dependencies_satisfied raised {type(exc).__name__}: {exc}")
        elif had and not faulty and res is not REQS[fl["req"]][1]:
            self.fail("wrong-deps", f"are_py_dependencies_satisfied({fl['name']}) = {res} for {REQS[fl['req']][0]!r}")

    def op_module(self, o, fl, ver):
        if self.mod is None:
            return
        mod, fl, v = self.mod
        res, exc, faulty, reqs = self.call("inspect_module", mod)
        if exc is not None:
            if not faulty:
                self.fail("inspect-fails", f"inspect_module raised {type(exc).__name__}: {exc}")
            return
        k = sum(map(ord, f"{fl['user'] or 'DAGWORKS'}/{fl['name']}@{v}")) % 97
        if {n for n, _ in res.nodes} != {"first", "second", f"last_{k}"} or {n for n, _ in res.possible_inputs} != {"x", "y"} \
                or res.version != v or res.configurations != [{}, {"k": k}]:
            self.fail("wrong-inspect", f"inspect_module of {fl['name']} {v[:7]}: {res}")

    def op_copy(self, o, fl, ver):
        if self.mod is None:
            return
        mod, fl, v = self.mod
        dest = f"{self.root}/project"
        target = os.path.join(dest, o["rename"] or fl["name"], "__init__.py")
        before = self.real(target) if os.path.lexists(target) else None
        res, exc, faulty, reqs = self.call("copy", mod, dest, overwrite=o["overwrite"], renamed_module=o["rename"])
        after = self.real(target) if os.path.lexists(target) else None
        if not self.alone:
            return
        if before is not None and not o["overwrite"]:
            if exc is None or before != after:
                self.fail("copy-overwrites", f"copy without overwrite onto an existing file: raised {exc!r}, changed {before != after}")
        elif exc is not None:
            if not faulty:
                self.fail("copy-fails", f"copy raised {type(exc).__name__}: {exc}")
        elif after != text_of(fl, v, "__init__.py"):
            self.fail("wrong-copy", f"copy of {fl['name']} {v[:7]} has {None if after is None else len(after)} characters")

    def op_clear(self, o, fl, ver):
        self.sim.event("clear")
        self.have.clear()
        self.mod = None
        _, exc, faulty, _ = self.call("clear_storage")
        if exc is not None:
            if not faulty:
                self.fail("clear-fails", f"clear_storage raised {type(exc).__name__}: {exc}")
            self.shaky = True
            return
        self.sim.event("cleared")
        res, exc, faulty, _ = self.call("list", version=None)
        if not faulty and (exc is not None or res):
            self.fail("not-cleared", f"after clear_storage list() gives {res} {exc!r}")


def run(plan, ctx):
    root = ctx.scratch + "/home"
    os.mkdir(root)
    have, shaky = set(), False
    lives = plan["lives"] + [None]
    for k, lf in enumerate(lives):
        last = lf is None
        if last:
            lf = {"clients": [final_ops(plan, have)], "net": ["ok"], "faults": []}
        crash = lf.get("crash") or {}
        ctx.life(lambda sim: life(sim, plan, lf, k, root, set(have), shaky, crash), start_time=1000.0 * k, crash_at=crash.get("step"))
        half = False
        for _, _, *ev in ctx.history[-1]:
            if ev[0] == "have":
                have.add((ev[1], ev[2]))
            elif ev[0] == "clear":
                have.clear()
                half = True
            elif ev[0] == "cleared":
                half = shaky = False
        shaky = shaky or half


def final_ops(plan, have):
    """Nothing fails any more: everything can be had, and what was there still is."""
    out = [{"op": "list", "flow": 0, "version": None, "user": None, "overwrite": False}]
    keys = [(j, v) for j, fl in enumerate(plan["flows"]) for v in fl["versions"]]
    keys_v = [v for _, v in keys]
    for j, v in keys:
        out += [{"op": x, "flow": j, "version": v, "overwrite": False} for x in ("import", "module", "inspect", "deps", "install")]
    out += [{"op": "list", "flow": 0, "version": v, "user": u, "overwrite": False} for v in [None] + keys_v for u in (None, "u1", "u2")]
    out += [{"op": "find", "flow": j, "version": v, "user": u, "broad": b, "overwrite": False} for j in range(len(plan["flows"]))
            for v in (None, plan["flows"][j]["versions"][0]) for u in (None, "u1") for b in (0, 1)]
    out += [{"op": x, "flow": j, "version": "latest", "overwrite": False} for j in range(len(plan["flows"])) for x in ("latest", "import")]
    out += [{"op": "resolve", "flow": 0, "version": None, "branch": b, "again": 0, "jump": None} for b in BRANCHES]
    out += [{"op": "import", "flow": j, "version": v, "overwrite": True} for j, v in keys[:2]]
    out += [{"op": "pull", "flow": j, "version": v, "overwrite": False} for j, v in keys[:1]]
    return out


def life(sim, plan, lf, k, root, have, shaky, crash):
    from hamilton import telemetry

    telemetry.disable_telemetry()
    os.environ["HOME"] = root
    importlib.invalidate_caches()
    for fl in plan["flows"]:
        sys.modules.pop(fl["name"], None)
    if plan["stray"]:
        for d, subs, _ in list(os.walk(root + "/.hamilton")):
            if d.endswith(("/dataflows", "/user", "/u1", "/u2")):
                with vfs._io_open(d + "/.DS_Store", "wb") as f:
                    f.write(b"\x00\x01needle-\xff")
                with vfs._io_open(d + "/notes.txt", "w") as f:
                    f.write("needle-")
    hub = Hub(sim, plan, lf["net"])
    urllib.request.urlopen = hub.urlopen
    sim.wall_offset += lf.get("wall", 0.0)
    st = vfs.attach(root, list(lf["faults"]) + ([crash["io"]] if "io" in crash else []), salt=plan["salt"])
    clients = [Client(sim, plan, hub, st, root, k, c, have, shaky) for c in range(len(lf["clients"]))]
    problems = []

    def go(cl, ops):
        cl.alone = len(clients) == 1
        try:
            for o in ops:
                sim.event("op", o["op"])
                cl.do(o)
        except Violation as v:
            problems.append(v)

    others = [threading.Thread(target=go, args=(cl, ops)) for cl, ops in list(zip(clients, lf["clients"]))[1:]]
    for t in others:
        t.start()
    go(clients[0], lf["clients"][0])
    for t in others:
        t.join()
    if problems:
        raise problems[0]


def shrink(plan):
    lives = plan["lives"]
    for k, lf in enumerate(lives):
        yield dict(plan, lives=lives[:k] + lives[k + 1:])
        for key, val in (("faults", []), ("net", ["ok"]), ("crash", None), ("wall", 0.0)):
            if lf.get(key) and lf[key] != val:
                yield dict(plan, lives=lives[:k] + [dict(lf, **{key: val})] + lives[k + 1:])
        if len(lf["clients"]) > 1:
            for c in range(len(lf["clients"])):
                yield dict(plan, lives=lives[:k] + [dict(lf, clients=lf["clients"][:c] + lf["clients"][c + 1:])] + lives[k + 1:])
        for c, ops in enumerate(lf["clients"]):
            for x in range(len(ops)):
                yield dict(plan, lives=lives[:k] + [dict(lf, clients=lf["clients"][:c] + [ops[:x] + ops[x + 1:]] + lf["clients"][c + 1:])]
                           + lives[k + 1:])
        if len(lf["net"]) > 1:
            for x, kind in enumerate(lf["net"][:60]):
                if kind != "ok":
                    yield dict(plan, lives=lives[:k] + [dict(lf, net=lf["net"][:x] + ["ok"] + lf["net"][x + 1:])] + lives[k + 1:])
    if plan["stray"]:
        yield dict(plan, stray=False)
    for j, fl in enumerate(plan["flows"]):
        if fl["pad"]:
            yield dict(plan, flows=plan["flows"][:j] + [dict(fl, pad=0)] + plan["flows"][j + 1:])
    yield from common.shrink_sched(plan)
