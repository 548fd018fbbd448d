import os

REPO = os.environ.get("VERIF_REPO", "/repo")
H = REPO + "/hamilton/"
CORE_FOCUS = (
    H + "execution/",
    H + "driver.py",
    H + "lifecycle/",
    H + "async_driver.py",
    H + "base.py",
    H + "telemetry.py",
    H + "caching/adapter.py",
    H + "caching/stores/",
    H + "caching/cache_key.py",
    "<simflow-",
)


def preload_core():
    import hamilton
    import hamilton.async_driver  # noqa
    import hamilton.caching.adapter  # noqa
    import hamilton.driver  # noqa
    import hamilton.execution.executors  # noqa
    import hamilton.lifecycle.default  # noqa

    assert os.path.realpath(hamilton.__file__).startswith(os.path.realpath(REPO)), hamilton.__file__


def gen_sched(rng, fine_prob=0.25):
    s = {
        "p": rng.choice([0.002, 0.01, 0.03, 0.1, 0.3]),
        "fine": rng.random() < fine_prob,
        "fair": rng.choice([150, 400, 1500]),
    }
    if rng.random() < 0.5:
        s["rdv"] = {"k": rng.choice([4, 10, 30, 100]), "salt": rng.randrange(1 << 30),
                    "max": rng.choice([2, 6, 20]), "hold": rng.choice([150, 600, 3000])}
    return s


def apply_granularity(ctx):
    if ctx.plan.get("sched", {}).get("fine"):
        from simkit import kernel

        kernel.instrument(ctx.scen._codes, fine=True)


def shrink_sched(plan):
    if plan["sched"].get("fine"):
        yield dict(plan, sched=dict(plan["sched"], fine=False))
