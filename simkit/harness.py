"""Running one simulated run, and the context object scenarios use."""

import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import traceback

from simkit import kernel
from simkit.kernel import Sim, Violation

SCRATCH_BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None


def run_seed(seed, pid, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()[:7], "big")


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


class Ctx:
    """Handed to Scenario.run: executes simulated process lives and collects what happened."""

    def __init__(self, spec, scen):
        self.spec = spec
        self.scen = scen
        self.plan = spec["plan"]
        self.lives = []  # per life: {"switches":..., "steps":..., "status":...}
        self.counters = {}
        self.sim_time = 0.0
        self.steps = 0
        self.trace = 0
        self.n_switch = 0
        self.threads = 0
        self.history = []
        self._scratch = None
        self._sim = None
        self.wall_base = None

    # -------------------------------------------------- scratch
    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="vsim.", dir=SCRATCH_BASE)
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    # -------------------------------------------------- simulation
    def _sched_for(self, k):
        sw = self.spec.get("switches")
        if sw is not None:
            return {"switches": sw[k] if k < len(sw) else {}}
        s = dict(self.plan.get("sched", {}))
        s.setdefault("p", 0.05)
        s["seed"] = f"{self.spec['sched_seed']}/{k}"
        return s

    def _make_sim(self, k, on_end, max_steps, crash_at, start_time):
        sim = Sim(
            self._sched_for(k),
            max_steps=max_steps,
            fair=self.plan.get("sched", {}).get("fair", 400),
            on_end=on_end,
        )
        sim.crash_at = crash_at
        sim.now = start_time
        kernel.activate_ids(f"{self.spec['id_seed']}/{k}")
        return sim

    def _absorb(self, rec):
        self.lives.append(rec)
        for c, v in rec["counters"].items():
            self.counters[c] = self.counters.get(c, 0) + v
        self.steps += rec["steps"]
        self.n_switch += rec["n_switch"]
        self.threads = max(self.threads, rec["threads"])
        self.trace = hash((self.trace, rec["trace"]))
        self.sim_time += rec["sim_time"]

    @staticmethod
    def _rec(sim, start, outcome):
        return {
            "switches": {str(k): v for k, v in sim.switches.items()},
            "steps": sim.step,
            "n_switch": sim.n_switch,
            "threads": len(sim.threads),
            "trace": sim.trace_hash,
            "sim_time": sim.now - start,
            "counters": sim.counters,
            "outcome": outcome,
        }

    def simulate(self, fn, max_steps=2_000_000, start_time=0.0):
        """Run fn(sim) as the main thread of a simulated process, in this process."""
        k = len(self.lives)

        def on_end(outcome):
            self._absorb(self._rec(sim, start_time, outcome))
            self.history.append(sim.log)
            raise_end(self, outcome)

        sim = self._make_sim(k, on_end, max_steps, None, start_time)
        self._sim = sim
        gc.disable()
        sim.start_main()
        try:
            return fn(sim)
        finally:  # also when a check failed: its schedule is what a replay needs
            sim.stop()
            self._absorb(self._rec(sim, start_time, {"status": "ok"}))
            self.history.append(sim.log)

    def life(self, fn, max_steps=2_000_000, crash_at=None, start_time=0.0):
        """Run fn(sim) in a forked process (one life of the simulated process).

        Returns (status, value): status 'ok' | 'crash' | 'violation' ...; value of fn for 'ok',
        list of history events for 'crash'."""
        k = len(self.lives)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            gc.collect()

            def send(rec):
                data = pickle.dumps(rec)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)

            def on_end(outcome):
                kernel.SIM = None
                rec = self._rec(sim, start_time, outcome)
                rec["value"] = None
                rec["log"] = sim.log
                send(rec)

            try:
                sim = self._make_sim(k, on_end, max_steps, crash_at, start_time)
                gc.disable()
                sim.start_main()
                try:
                    val = fn(sim)
                    outcome = {"status": "ok"}
                except Violation as e:
                    val = None
                    outcome = {"status": "violation", "kind": e.kind, "msg": e.msg}
                sim.stop()
                rec = self._rec(sim, start_time, outcome)
                rec["value"] = val
                rec["log"] = sim.log
                send(rec)
            except BaseException:
                kernel.SIM = None
                try:
                    send(
                        {
                            "switches": {}, "steps": 0, "n_switch": 0, "threads": 0, "trace": 0,
                            "sim_time": 0, "counters": {}, "log": [], "value": None,
                            "outcome": {"status": "harness_error", "msg": traceback.format_exc()},
                        }
                    )
                finally:
                    os._exit(71)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("life process died without reporting")
        rec = pickle.loads(data)
        log = rec.pop("log")
        val = rec.pop("value")
        self._absorb(rec)
        self.history.append(log)
        st = rec["outcome"]["status"]
        if st == "ok":
            return "ok", val
        if st == "crash":
            return "crash", log
        if st == "violation":
            raise Violation(rec["outcome"]["kind"], rec["outcome"]["msg"])
        if st == "deadlock":
            raise Violation("deadlock", "no thread can make progress: " + rec["outcome"]["msg"])
        if st == "nonterminating":
            raise Violation("no-progress", "step budget exhausted: " + rec["outcome"]["msg"])
        raise RuntimeError("life failed: " + rec["outcome"].get("msg", ""))


_END = {}


def raise_end(ctx, outcome):
    """Called from any sim thread when the run cannot go on: report and leave the process."""
    kernel.SIM = None
    st = outcome["status"]
    if st == "deadlock":
        out = {"status": "violation", "kind": "deadlock", "msg": outcome["msg"]}
    elif st == "nonterminating":
        out = {"status": "violation", "kind": "no-progress", "msg": outcome["msg"]}
    else:
        out = outcome
    _END["report"](ctx, out)


def fail_now(kind, msg):
    """Report a violation from any simulated thread (invariant checks while a run proceeds)."""
    sim = kernel.SIM
    sim._end({"status": "violation", "kind": kind, "msg": msg})


def from_repo(e):
    """Was the exception raised by (or below) code of the repository rather than by the harness?"""
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    last = None
    for fr, _ in traceback.walk_tb(e.__traceback__):
        f = os.path.realpath(fr.f_code.co_filename)
        if f.startswith(repo):
            last = "repo"
        elif f.startswith(here):
            last = "verif"
    return last == "repo"


def execute_spec(spec, scen, wall_limit=90):
    """Fork, execute the spec, return the outcome record."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        os.close(r)
        gc.collect()  # so that collections (and finalisers) happen at the same steps in every replay
        ctx = Ctx(spec, scen)

        def report(ctx_, out):
            ctx_.cleanup()
            rec = {
                "outcome": out,
                "lives": ctx_.lives,
                "counters": ctx_.counters,
                "steps": ctx_.steps,
                "n_switch": ctx_.n_switch,
                "threads": ctx_.threads,
                "trace": ctx_.trace,
                "sim_time": ctx_.sim_time,
                "digest": digest((ctx_.history, out.get("kind"), ctx_.trace)),
            }
            data = pickle.dumps(rec)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            sys.stdout.flush()
            os._exit(0)

        _END["report"] = report
        try:
            try:
                scen.run(spec["plan"], ctx)
                out = {"status": "ok"}
            except Violation as e:
                out = {"status": "violation", "kind": e.kind, "msg": e.msg}
            kernel.SIM = None
            report(ctx, out)
        except BaseException as e:
            kernel.SIM = None
            out = {"status": "harness_error", "msg": traceback.format_exc()}
            if isinstance(e, Exception) and from_repo(e):
                # the code under test raised where the scenario expects it not to
                out = {"status": "violation", "kind": "unexpected-error", "msg": f"{type(e).__name__}: {e}"[:2000]}
            try:
                report(ctx, out)
            finally:
                os._exit(72)
    os.close(w)
    chunks = []
    deadline = kernel.REAL_MONO() + wall_limit
    hung = False
    while True:
        left = deadline - kernel.REAL_MONO()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(r)
    os.waitpid(pid, 0)
    if hung:
        return {"outcome": {"status": "hang", "msg": f"no answer in {wall_limit}s"}}
    data = b"".join(chunks)
    if not data:
        return {"outcome": {"status": "harness_error", "msg": "run process died silently"}}
    return pickle.loads(data)


def make_spec(scen, seed, i, tier):
    rs = run_seed(seed, scen.ID, i)
    rng = random.Random(rs)
    plan = scen.gen(rng, i, tier)
    return {
        "property": scen.ID,
        "seed": seed,
        "index": i,
        "run_seed": rs,
        "sched_seed": rs ^ 0x5EED,
        "id_seed": rs ^ 0x1D,
        "plan": plan,
    }


def load_scenario(pid):
    return importlib.import_module(f"scenarios.{pid.lower()}")


# ---------------------------------------------------------------------- minimisation
def same_violation(rec, kind):
    o = rec["outcome"]
    return o["status"] == "violation" and o["kind"] == kind


def replay_spec(spec, rec, plan=None):
    s = dict(spec)
    if plan is not None:
        s["plan"] = plan
    s["switches"] = [l["switches"] for l in rec["lives"]]
    return s


def minimise(spec, rec, scen, budget_s=40.0):
    """Reduce plan and schedule of a failing run, keeping the violation kind."""
    t0 = kernel.REAL_MONO()
    kind = rec["outcome"]["kind"]
    best = replay_spec(spec, rec)
    chk = execute_spec(best, scen)
    exact = same_violation(chk, kind)
    if not exact:
        return spec, rec, {"exact_replay": False, "tries": 1}
    best_rec = chk
    tries = 1

    def left():
        return kernel.REAL_MONO() - t0 < budget_s

    # 1. plan
    progress = True
    while progress and left():
        progress = False
        for cand in scen.shrink(best["plan"]):
            if not left():
                break
            variants = [dict(best, plan=cand)]
            for k in range(3):
                v = dict(best, plan=cand, sched_seed=best["sched_seed"] + 1000 + k)
                v.pop("switches", None)
                variants.append(v)
            for v in variants:
                tries += 1
                r = execute_spec(v, scen)
                if same_violation(r, kind):
                    best = replay_spec(v, r)
                    best_rec = r
                    progress = True
                    break
                if not left():
                    break
            if progress:
                break

    # 2. schedule: ddmin over recorded decisions, life by life
    def flat(sw):
        return [(li, k, v) for li, d in enumerate(sw) for k, v in sorted(d.items(), key=lambda x: int(x[0]))]

    def unflat(items, n):
        out = [{} for _ in range(n)]
        for li, k, v in items:
            out[li][k] = v
        return out

    items = flat(best["switches"])
    nl = len(best["switches"])
    # try empty first
    n = 2
    if items and left():
        v = dict(best, switches=unflat([], nl))
        r = execute_spec(v, scen)
        tries += 1
        if same_violation(r, kind):
            items = []
            best, best_rec = v, r
    while len(items) >= 1 and left():
        chunk = max(1, len(items) // n)
        reduced = False
        for s in range(0, len(items), chunk):
            if not left():
                break
            cand = items[:s] + items[s + chunk:]
            v = dict(best, switches=unflat(cand, nl))
            r = execute_spec(v, scen)
            tries += 1
            if same_violation(r, kind):
                items = cand
                best, best_rec = v, r
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return best, best_rec, {"exact_replay": True, "tries": tries, "decisions_left": len(items)}
