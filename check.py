#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--seed N]      run the check of one property
check.py --replay FILE                               re-execute a replay file exactly

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: violated.  Anything else: no answer.
"""

import argparse
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
NHASH = 8  # distinct PYTHONHASHSEED values; run i uses hash seed i % NHASH


def load_conf():
    return json.load(open(os.path.join(HERE, "checks.json")))


def worker_env(hashseed, home):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": home, "TMPDIR": home, "TZ": "UTC", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8",
        "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1",
        "HAMILTON_TELEMETRY_ENABLED": "false", "HAMILTON_AUTOLOAD_EXTENSIONS": "0",
        "PYTHONWARNINGS": "ignore", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "VERIF_REPO": os.environ.get("VERIF_REPO", "/repo"),
    }
    return env


def python_for(conf, pid):
    return conf["checks"][pid].get("python", "/opt/venv/bin/python")


def start(conf, pid, hashseed, home, *args, out=None):
    return subprocess.Popen(
        [python_for(conf, pid), "-X", "faulthandler", os.path.join(HERE, "simkit/worker.py"), *map(str, args)],
        stdout=subprocess.PIPE, stderr=open(os.path.join(home, f"err.{args[0]}.{hashseed}"), "ab"),
        stdin=subprocess.DEVNULL, text=True, env=worker_env(hashseed, home), cwd=home,
        start_new_session=True,
    )


def call(conf, pid, hashseed, home, *args, timeout=300):
    p = start(conf, pid, hashseed, home, *args)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None
    lines = [json.loads(x) for x in out.splitlines() if x.startswith("{")]
    return lines[-1] if lines else None


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"]
            if k["property"] == pid and k["status"] == "known"]


def match_known(known, viol):
    for k in known:
        if re.search(k["match"]["kind"], viol["kind"]) and re.search(k["match"]["msg"], viol["msg"], re.S):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="check that the workers can start")
    ap.add_argument("--keep-going", action="store_true", help="development: list violations")
    ap.add_argument("--digests", help="write per-run digests (determinism proof)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    conf = load_conf()
    home = tempfile.mkdtemp(prefix="vcheck.")
    try:
        if a.setup:
            return setup(conf, home)
        if a.replay:
            return replay(conf, a.replay, home)
        return run(conf, a, home)
    finally:
        shutil.rmtree(home, ignore_errors=True)


def setup(conf, home):
    """Nothing to compile: the code under test is imported from /repo at run time.  Verify that each
    interpreter used by a check can boot the simulator and import the code."""
    rc = 0
    for pid in sorted(conf["checks"]):
        r = call(conf, pid, 0, home, "run", pid, "quick", 1, 0, 8, 1, 60)
        ok = r is not None and r.get("done")
        print(f"setup {pid}: {'ok' if ok else 'FAILED'}")
        rc = rc or (0 if ok else 1)
    return rc


def replay(conf, path, home):
    spec = json.load(open(path))
    r = call(conf, spec["property"], spec.get("hashseed", 0), home, "replay", os.path.abspath(path))
    if r is None:
        print("replay: no answer")
        return 2
    o = r["o"]
    print(f"replay of {path}: {o['status']} {o.get('kind', '')} {o.get('msg', '')}")
    if o["status"] == "violation":
        same = r.get("d") == spec.get("digest")
        print(f"execution digest {r.get('d')} recorded {spec.get('digest')} identical={same}")
        print(f"VIOLATION property={spec['property']} replay={path}")
        return 1
    return 0 if o["status"] == "ok" else 2


def run(conf, a, home):
    pid = a.pid
    c = conf["checks"][pid]
    tier = a.tier
    runs = a.runs or c["runs"][tier]
    wall = a.wall or c.get("wall", {}).get(tier) or conf["wall"][tier]
    t0 = time.monotonic()
    seed = a.seed
    per = (runs + NHASH - 1) // NHASH
    procs = [
        start(conf, pid, h, home, "run", pid, tier, seed, h, NHASH, per, wall) for h in range(NHASH)
    ]
    lock = threading.Lock()
    S = {"n": 0, "steps": 0, "sw": 0, "t": 0.0, "lives": 0, "w": 0.0, "thr": 0}
    traces, digests, counters, viols, errors, hangs = set(), set(), {}, [], [], []
    hung = []
    multi = [0]
    samples = []
    dig = {}
    known = load_known(pid)
    known_hits = {}
    ready, done = set(), set()
    stop = threading.Event()

    def reader(h, p):
        for line in p.stdout:
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            with lock:
                if m.get("ready"):
                    ready.add(h)
                    continue
                if m.get("done"):
                    done.add(h)
                    continue
                if "hang" in m:
                    hung.append((m["i"], h, m["hang"]))
                    stop.set()
                    continue
                o = m["o"]
                if o["status"] == "harness_error":
                    errors.append((m["i"], o["msg"]))
                    continue
                if o["status"] == "hang":
                    hangs.append(m["i"])
                    continue
                S["n"] += 1
                S["steps"] += m["st"]
                S["sw"] += m["sw"]
                S["t"] += m["t"]
                S["lives"] += m["l"]
                S["w"] += m["w"]
                S["thr"] = max(S["thr"], m["th"])
                if m["sw"]:
                    multi[0] += 1
                traces.add((m["tr"], m["st"]))
                digests.add(m["d"])
                if a.digests:
                    dig[m["i"]] = m["d"]
                for k, v in m["c"].items():
                    counters[k] = counters.get(k, 0) + v
                if len(samples) < 3:
                    samples.append({"index": m["i"], "steps": m["st"], "switches": m["sw"],
                                    "threads": m["th"], "virtual_s": m["t"], "digest": m["d"],
                                    "faults": m["c"]})
                if o["status"] == "violation":
                    k = match_known(known, o)
                    if k is not None:
                        known_hits.setdefault(k["id"], [k, 0])[1] += 1
                    else:
                        viols.append((m["i"], h, m))
                        if not a.keep_going:
                            stop.set()

    ths = [threading.Thread(target=reader, args=(h, p), daemon=True) for h, p in enumerate(procs)]
    for t in ths:
        t.start()
    hard = wall + 180
    while any(t.is_alive() for t in ths):
        if stop.is_set() or time.monotonic() - t0 > hard:
            break
        time.sleep(0.05)
    if stop.is_set():
        time.sleep(0.3)
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    for t in ths:
        t.join(5)
    elapsed = time.monotonic() - t0

    if a.digests:
        json.dump(dig, open(a.digests, "w"))

    # ---- outcome
    rc = 0
    viol_ev = []
    if viols:
        viols.sort(key=lambda v: v[0])
        if a.keep_going:
            from collections import Counter
            for v in viols: print("   *", v[2]["o"]["kind"], v[2]["o"]["msg"][:150]) if a.verbose else 0

            cnt = Counter((v[2]["o"]["kind"]) for v in viols)
            print("violations:", dict(cnt))
            seen = set()
            for i, h, m in viols:
                if m["o"]["kind"] not in seen:
                    seen.add(m["o"]["kind"])
                    print(" ", i, h, m["o"]["kind"], m["o"]["msg"][:600])
                    f = f"/tmp/viol-{pid}-{m['o']['kind']}.json"
                    json.dump(dict(m["spec"], hashseed=h), open(f, "w"))
            rc = 1
        else:
            i, h, m = viols[0]
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            raw = os.path.join(home, "raw.json")
            spec0 = dict(m["spec0"], hashseed=h)
            json.dump(spec0, open(raw, "w"))
            out = os.path.join(rdir, f"{pid}-seed{seed}-run{i}.json")
            r = call(conf, pid, h, home, "minimise", raw, out, 15, timeout=120)
            if not os.path.exists(out) or r is None or "o" not in r:
                spec = dict(m["spec"], hashseed=h, violation=m["o"], digest=m["d"],
                            minimised={"exact_replay": None})
                json.dump(spec, open(out, "w"), indent=1, sort_keys=True)
                r = {"o": m["o"], "info": {}}
            print(f"{pid}: {r['o']['kind']}: {r['o']['msg'][:1500]}")
            print(f"  seed={seed} run={i} hashseed={h} minimised={r.get('info')}")
            print(f"  first seen as {m['o']['kind']}; {len(viols)} failing run(s) among {S['n']}")
            print(f"VIOLATION property={pid} replay={out}")
            viol_ev.append({"kind": r["o"]["kind"], "run": i, "seed": seed, "replay": out})
            rc = 1
    elif hung:
        i, h, spec = hung[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        out = os.path.join(HERE, "replays", f"{pid}-seed{seed}-run{i}.json")
        v = {"kind": "hang", "msg": "the execution never ends", "status": "violation"}
        json.dump(dict(spec, hashseed=h, violation=v), open(out, "w"), indent=1, sort_keys=True)
        print(f"{pid}: hang: run {i} (seed {seed}) never ended, twice, where milliseconds are normal")
        print(f"VIOLATION property={pid} replay={out}")
        viol_ev.append({"kind": "hang", "run": i, "seed": seed, "replay": out})
        rc = 1
    for kid, (k, n) in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={pid} {k['what']} ({n} runs)")
    min_runs = max(8, runs // 40)
    if rc == 0:
        if errors:
            print(f"{pid}: harness errors in {len(errors)} runs; first (run {errors[0][0]}):\n{errors[0][1]}")
            rc = 3
        elif hangs:
            print(f"{pid}: {len(hangs)} runs gave no answer in time: {hangs[:5]}")
            rc = 4
        elif len(ready) < NHASH or S["n"] < min_runs:
            print(f"{pid}: only {S['n']} runs completed ({len(ready)} workers ready), need {min_runs}")
            for h in range(NHASH):
                f = os.path.join(home, f"err.run.{h}")
                if os.path.exists(f) and os.path.getsize(f):
                    print(open(f, errors="replace").read()[-1500:])
                    break
            rc = 5
    if not a.no_evidence:
        write_evidence(conf, c, pid, tier, seed, elapsed, S, traces, digests, counters, multi[0],
                       samples, viol_ev, known_hits, len(errors), len(hangs), runs)
    print(f"{pid} {tier}: rc={rc} runs={S['n']}/{runs} steps={S['steps']} switches={S['sw']} "
          f"interleavings={len(traces)} sim_s={S['t']:.1f} faults={ {k: v for k, v in sorted(counters.items())} } "
          f"wall={elapsed:.1f}s")
    return rc


def write_evidence(conf, c, pid, tier, seed, elapsed, S, traces, digests, counters, multi, samples,
                   viols, known_hits, nerr, nhang, planned):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": S["n"],
            "distinct_nontrivial": len(digests),
            "rule": "a run is one seed: generated plan + scheduler decisions + fault plan, executed once "
                    "in its own process; distinct = different execution digest (full event history and "
                    "context-switch trace); non-trivial = at least one event of the code under test",
            "samples": samples,
            "runs_planned": planned,
            "runs_per_hour": round(S["n"] / max(elapsed, 1e-9) * 3600),
            "seeds_per_hour": round(S["n"] / max(elapsed, 1e-9) * 3600),
            "simulated_process_lives": S["lives"],
            "simulated_seconds": round(S["t"], 3),
            "scheduler_steps": S["steps"],
            "context_switches": S["sw"],
            "runs_with_context_switches": multi,
            "max_threads": S["thr"],
            "distinct_interleavings": len(traces),
            "interleaving_measure": "distinct hashes of the sequence (step, thread) of all context switches",
            "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")},
            "other_counters": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault:")},
            "real_components": c.get("real", conf["real"]),
            "stubbed_components": c.get("stub", conf["stub"]),
            "hash_seeds": NHASH,
            "harness_errors": nerr, "no_answer_runs": nhang,
            "known_findings_hit": {k: v[1] for k, v in known_hits.items()},
        },
        "wall_s": round(elapsed, 2),
        "assumptions": c.get("assumptions", conf["assumptions"]),
        "violations": len(viols),
    }
    if viols:
        ev["coverage"]["violation_details"] = viols
    path = os.path.join(HERE, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
