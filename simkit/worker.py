"""Worker process: imports the code under test under the simulation kernel and executes runs.

usage: worker.py run PID TIER SEED FIRST STEP COUNT DEADLINE_S
       worker.py replay FILE
       worker.py minimise FILE OUT BUDGET
Emits JSON lines on stdout.
"""

import json
import logging
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get("VERIF_REPO", "/repo") != "/repo":  # development: a scratch copy of the repository
    sys.path[1:1] = [os.environ["VERIF_REPO"], os.environ["VERIF_REPO"] + "/ui/sdk/src"]
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
from simkit import kernel  # noqa: E402

kernel.install()
from simkit import vfs  # noqa: E402

vfs.install()
from simkit import harness  # noqa: E402


HANG = "the execution never ends: no answer within 90 s of real time, where milliseconds are normal"


def boot(pid):
    scen = harness.load_scenario(pid)
    if hasattr(scen, "preload"):
        scen.preload()
    kernel.init_monitoring()
    codes = kernel.collect_codes(tuple(scen.FOCUS), tuple(getattr(scen, "UNFOCUS", ())))
    kernel.instrument(codes)
    scen._codes = codes
    import gc

    gc.collect()
    gc.freeze()
    return scen


def emit(obj):
    sys.__stdout__.write(json.dumps(obj) + "\n")
    sys.__stdout__.flush()


def main():
    cmd = sys.argv[1]
    if cmd == "run":
        pid, tier, seed, first, step, count, deadline = sys.argv[2:9]
        scen = boot(pid)
        t0 = kernel.REAL_MONO()
        emit({"ready": True, "instrumented": len(scen._codes)})
        hangs = 0
        for n in range(int(count)):
            if kernel.REAL_MONO() - t0 > float(deadline):
                break
            i = int(first) + n * int(step)
            spec = harness.make_spec(scen, int(seed), i, tier)
            t1 = kernel.REAL_MONO()
            rec = harness.execute_spec(spec, scen)
            if rec["outcome"]["status"] == "hang" and not hangs:
                hangs += 1
                rec = harness.execute_spec(spec, scen, wall_limit=60)
                if rec["outcome"]["status"] == "hang":  # twice: not the machine
                    emit({"i": i, "hang": spec})
                    continue
            out = rec["outcome"]
            msg = {"i": i, "o": out, "w": round(kernel.REAL_MONO() - t1, 4)}
            if "lives" in rec:
                msg.update(
                    st=rec["steps"], sw=rec["n_switch"], th=rec["threads"], tr=rec["trace"],
                    t=round(rec["sim_time"], 6), c=rec["counters"], d=rec["digest"],
                    l=len(rec["lives"]),
                )
            if out["status"] == "violation":
                msg["spec"] = harness.replay_spec(spec, rec)
                msg["spec0"] = spec
            emit(msg)
        emit({"done": True})
    elif cmd == "replay":
        spec = json.load(open(sys.argv[2]))
        scen = boot(spec["property"])
        rec = harness.execute_spec(spec, scen)
        if rec["outcome"]["status"] == "hang":
            rec["outcome"] = {"status": "violation", "kind": "hang", "msg": HANG}
        emit({"o": rec["outcome"], "d": rec.get("digest"), "steps": rec.get("steps"),
              "c": rec.get("counters")})
    elif cmd == "minimise":
        spec = json.load(open(sys.argv[2]))
        scen = boot(spec["property"])
        rec = harness.execute_spec(spec, scen)
        if rec["outcome"]["status"] != "violation":
            emit({"failed": rec["outcome"]})
            return
        best, brec, info = harness.minimise(spec, rec, scen, float(sys.argv[4]))
        best["violation"] = brec["outcome"]
        best["digest"] = brec["digest"]
        best["minimised"] = info
        best["hashseed"] = spec.get("hashseed")
        with open(sys.argv[3], "w") as f:
            json.dump(best, f, indent=1, sort_keys=True)
        emit({"o": brec["outcome"], "info": info})


if __name__ == "__main__":
    main()
