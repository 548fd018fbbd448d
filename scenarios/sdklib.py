"""The tracking SDK under simulation: a stub server behind `requests` / `aiohttp`, the end of the
main thread, atexit callbacks, virtual datetimes."""

import asyncio
import copy
import json
import os
import threading
from urllib.parse import parse_qs, urlparse

from simkit import kernel
from scenarios import common

SDK = common.REPO + "/ui/sdk/src/hamilton_sdk/"
FOCUS = common.CORE_FOCUS + (SDK,)


class FakeMain:
    """What threading.main_thread() returns: join() returns when the simulated main thread is over."""

    def __init__(self):
        self.over = False

    def join(self, timeout=None):
        while not self.over:
            kernel.SIM.block(self, None)

    def is_alive(self):
        return not self.over

    def finish(self):
        self.over = True
        kernel.SIM.wake(self)


class Env:
    main = None
    atexit = None
    server = None


ENV = Env()


class FakeAtexit:
    @staticmethod
    def register(fn, *a, **k):
        ENV.atexit.append((fn, a, k))
        return fn

    @staticmethod
    def unregister(fn):
        ENV.atexit[:] = [x for x in ENV.atexit if x[0] != fn]


class DtModule:
    """The datetime module with a virtual clock."""

    def __init__(self, real):
        self.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
        self.datetime = real._sim_datetime


class FakeRequests:
    """`requests`, answering from the simulated server."""

    def __init__(self, real):
        self.real = real
        self.exceptions = real.exceptions
        for k in ("HTTPError", "ConnectionError", "Timeout", "RequestException", "Response"):
            setattr(self, k, getattr(real, k))

    def _do(self, method, url, json=None, headers=None, **kw):
        import requests

        _check_json(json)
        st, body = ENV.server.handle(method, url, json, headers, _sleep_sync,
                                     {"conn": requests.ConnectionError, "timeout": requests.Timeout,
                                      "reset": requests.exceptions.ChunkedEncodingError})
        r = requests.Response()
        r.status_code = st
        r.url = url
        r._content = body.encode()
        return r

    def get(self, url, **kw):
        return self._do("GET", url, **kw)

    def put(self, url, **kw):
        return self._do("PUT", url, **kw)

    def post(self, url, **kw):
        return self._do("POST", url, **kw)


def _check_json(j):
    if j is not None:
        json.dumps(j)  # what requests does: unserialisable bodies raise


def _sleep_sync(s):
    kernel.SIM.sleep(s)


class Server:
    """A tracking server. faults: {"at": k-th bulk update (or "any": route), "kind": ...}"""

    def __init__(self, faults=(), latency=0.05, stall_until=None, routes=("dag_runs_bulk",)):
        self.faults = {f["at"]: f["kind"] for f in faults}
        self.latency = latency
        self.routes = routes
        self.n = 0
        self.log = []  # requests: {"route","method","q","body","acked","processed"}
        self.runs = {}
        self.templates = {}
        self.stall = None  # callable: request blocks while true

    # -- shared between the sync and async fronts
    def begin(self, method, url, body, headers):
        u = urlparse(url)
        parts = [p for p in u.path.split("/") if p][2:]  # after api/v1
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        rec = {"route": parts[0], "path": parts, "method": method, "q": q, "body": copy.deepcopy(body),
               "processed": False, "acked": False, "failed": False, "t": kernel.SIM.now,
               "headers": dict(headers or {})}
        self.log.append(rec)
        kind = None
        if parts[0] in self.routes:
            kind = self.faults.get(self.n)
            self.n += 1
        kernel.SIM.event("request", method, parts[0], q.get("dag_run_id"), kind or "")
        if kind:
            kernel.SIM.count("fault:server_" + kind)
        return rec, kind

    def process(self, rec):
        rec["processed"] = True
        rec["tp"] = kernel.SIM.now
        r, m = rec["route"], rec["method"]
        if r == "dag_templates" and m == "GET":
            key = (rec["q"].get("dag_hash"), rec["q"].get("code_hash"), rec["q"].get("dag_name"))
            t = self.templates.get(key)
            return json.dumps({"id": t} if t is not None else None)
        if r == "dag_templates":
            b = rec["body"]
            key = (b["dag_hash"], b["code_hash"], b["name"])
            self.templates.setdefault(key, 100 + len(self.templates))
            rec["id"] = self.templates[key]
            return json.dumps({"id": self.templates[key]})
        if r == "dag_runs" and m == "POST":
            rid = 5000 + len(self.runs)
            self.runs[rid] = rec
            rec["id"] = rid
            return json.dumps({"id": rid})
        return json.dumps({"id": 1})

    def plan(self, kind):
        """(delay, process?, outcome, delay after)"""
        lat = self.latency
        return {
            None: (lat, True, 200, lat),
            "conn": (lat, False, "conn", 0),
            "timeout": (30.0, False, "timeout", 0),
            "late": (lat, True, "timeout", 30.0),
            "lost_ack": (lat, True, "reset", 0),
            "http500": (lat, False, 500, 0),
            "http503": (lat, False, 503, 0),
            "http400": (lat, False, 400, 0),
            "http502_done": (lat, True, 502, 0),
            "slow": (12.0, True, 200, 0),
        }[kind]

    def handle(self, method, url, body, headers, sleep, excs):
        rec, kind = self.begin(method, url, body, headers)
        while self.stall is not None and self.stall() and rec["route"] in self.routes:
            sleep(1.0)
        d1, proc, out, d2 = self.plan(kind)
        if d1:
            sleep(d1)
        text = self.process(rec) if proc else "error"
        if d2:
            sleep(d2)
        return self.finish(rec, out, text, excs)

    async def ahandle(self, method, url, body, headers, excs):
        rec, kind = self.begin(method, url, body, headers)
        while self.stall is not None and self.stall() and rec["route"] in self.routes:
            await asyncio.sleep(1.0)
        d1, proc, out, d2 = self.plan(kind)
        await asyncio.sleep(d1)
        text = self.process(rec) if proc else "error"
        await asyncio.sleep(d2)
        return self.finish(rec, out, text, excs)

    def finish(self, rec, out, text, excs):
        if isinstance(out, str):
            rec["failed"] = True
            raise excs[out](f"simulated {out}")
        if out >= 400:
            rec["failed"] = True
        else:
            rec["acked"] = True
        return out, text


FAULTS = ["conn", "timeout", "late", "lost_ack", "http500", "http503", "http400", "http502_done", "slow"]


# ---------------------------------------------------------------------- aiohttp front
class FakeResp:
    def __init__(self, real, status, text, method, url):
        self.real, self.status, self._text, self.method, self.url = real, status, text, method, url

    def raise_for_status(self):
        if self.status >= 400:
            info = self.real.RequestInfo(self.url, self.method, {}, self.url)
            raise self.real.ClientResponseError(info, (), status=self.status, message="simulated")

    async def json(self):
        return json.loads(self._text)

    async def text(self):
        return self._text


class _Req:
    def __init__(self, front, method, url, body, headers):
        self.a = (front, method, url, body, headers)

    async def __aenter__(self):
        front, method, url, body, headers = self.a
        real = front.real
        _check_json(body)
        import yarl

        u = yarl.URL(url)
        st, text = await ENV.server.ahandle(
            method, url, body, headers,
            {"conn": lambda m: real.ClientConnectionError(m), "timeout": lambda m: asyncio.TimeoutError(m),
             "reset": lambda m: real.ServerDisconnectedError(m)})
        return FakeResp(real, st, text, method, u)

    async def __aexit__(self, *a):
        return False


class _Session:
    def __init__(self, front):
        self.front = front

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False

    def get(self, url, json=None, headers=None, **kw):
        return _Req(self.front, "GET", url, json, headers)

    def put(self, url, json=None, headers=None, **kw):
        return _Req(self.front, "PUT", url, json, headers)

    def post(self, url, json=None, headers=None, **kw):
        return _Req(self.front, "POST", url, json, headers)


class FakeAiohttp:
    def __init__(self, real):
        self.real = real

    def __getattr__(self, k):
        return getattr(self.real, k)

    def ClientSession(self, *a, **k):
        return _Session(self)


_done = []


def preload():
    if _done:
        return
    _done.append(1)
    common.preload_core()
    import datetime

    import hamilton_sdk
    from hamilton_sdk import adapters, driver
    from hamilton_sdk.api import clients
    from hamilton_sdk.tracking import runs

    assert os.path.realpath(hamilton_sdk.__file__).startswith(os.path.realpath(SDK)), hamilton_sdk.__file__
    threading.main_thread = lambda: ENV.main
    # the standard-library and third-party modules the SDK modules use, wherever they hold them
    for mod in (adapters, driver, clients, runs):
        for name, val in list(vars(mod).items()):
            real = getattr(val, "__name__", None)
            if val is datetime:
                setattr(mod, name, DtModule(datetime))
            elif val is datetime.datetime:
                setattr(mod, name, datetime._sim_datetime)
            elif real == "requests" and not isinstance(val, FakeRequests):
                setattr(mod, name, FakeRequests(val))
            elif real == "aiohttp":
                setattr(mod, name, FakeAiohttp(val))
            elif real == "atexit":
                setattr(mod, name, FakeAtexit())
    info = driver.GitInfo(branch="b", commit_hash="c", committed=True, repository="r", local_repo_base_path="/")
    driver._derive_version_control_info = lambda module_hash: info


def start(server):
    ENV.main = FakeMain()
    ENV.atexit = []
    ENV.server = server


def process_exit(threads_before):
    """What CPython does at the end of the main thread: it counts as finished, the non-daemon
    threads are joined, then the atexit callbacks run, last registered first."""
    ENV.main.finish()
    for t in list(threading._active.values()):
        if t not in threads_before and not t.daemon and t is not threading.current_thread():
            t.join()
    errors = []
    while ENV.atexit:
        fn, a, k = ENV.atexit.pop()
        try:
            fn(*a, **k)
        except Exception as e:
            errors.append(e)
    return errors
