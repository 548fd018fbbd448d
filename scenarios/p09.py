"""P09: caching never changes a result."""

import datetime
import decimal

from simkit import values, vfs
from simkit.kernel import Violation
from scenarios import cachelib as cl

ID = "P09"
FOCUS = cl.FOCUS


def preload():
    cl.preload()


# ---------------------------------------------------------------------- pairs of different values
def _np(*a, **k):
    import numpy as np

    return np.array(*a, **k)


def _pd():
    import pandas as pd

    return pd


class Other:
    def __init__(self, a, b):
        self.a = a
        self.b = b


class Deep:
    def __init__(self, x):
        self.x = x


def _deep(v, n):
    for _ in range(n):
        v = Deep(v)
    return v


PAIRS = {
    # the same type, different values: must always be told apart
    "int": lambda: (1, 2), "negative": lambda: (1, -1), "big int": lambda: (10**30, 10**30 + 1),
    "str": lambda: ("a", "b"), "str case": lambda: ("a", "A"), "str space": lambda: ("a", "a "),
    "float": lambda: (0.1, 0.2), "float ulp": lambda: (0.1, 0.1 + 2**-56), "float sign": lambda: (1.5, -1.5),
    "inf": lambda: (float("inf"), float("-inf")), "bool": lambda: (True, False),
    "bytes": lambda: (b"a", b"b"), "bytes nul": lambda: (b"a", b"a\x00"),
    "none/str": lambda: (None, "None"), "none/empty": lambda: (None, ""), "none/zero": lambda: (None, 0),
    "none/list": lambda: (None, []), "int/float": lambda: (1, 1.0), "zero/false": lambda: (0, False),
    "list": lambda: ([1, 2], [1, 3]), "list order": lambda: ([1, 2], [2, 1]),
    "list length": lambda: ([1], [1, 1]), "list nesting": lambda: ([[1], [2]], [[1, 2]]),
    "list nesting 2": lambda: ([[1, 2], []], [[1], [2]]), "list empty": lambda: ([], [0]),
    "list of list": lambda: ([1], [[1]]), "list join": lambda: (["ab", "c"], ["a", "bc"]),
    "tuple": lambda: ((1, 2), (2, 1)), "set": lambda: ({1, 2}, {1, 3}), "set size": lambda: ({1}, {1, 2}),
    "dict value": lambda: ({"a": 1}, {"a": 2}), "dict key": lambda: ({"a": 1}, {"b": 1}),
    "dict swap": lambda: ({"a": 1, "b": 2}, {"a": 2, "b": 1}), "dict extra": lambda: ({"a": 1}, {"a": 1, "b": 1}),
    "dict/key value": lambda: ({"a": "b"}, {"b": "a"}), "dict nested": lambda: ({"a": {"b": 1}}, {"a": {"b": 2}}),
    "dict none": lambda: ({"a": None}, {"a": "x"}),
    "deep list": lambda: ([[[[[[[[[1]]]]]]]]], [[[[[[[[[2]]]]]]]]]),
    "deep dict": lambda: ({"a": {"a": {"a": {"a": {"a": {"a": {"a": {"a": 1}}}}}}}},
                          {"a": {"a": {"a": {"a": {"a": {"a": {"a": {"a": 2}}}}}}}}),
    "datetime": lambda: (datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 1, 0, 0, 1)),
    "date": lambda: (datetime.date(2020, 1, 1), datetime.date(2020, 1, 2)),
    "timedelta": lambda: (datetime.timedelta(1), datetime.timedelta(2)),
    "list of datetime": lambda: ([datetime.date(2020, 1, 1)], [datetime.date(2020, 1, 2)]),
    "object": lambda: (values.Thing(1, 2), values.Thing(2, 1)),
    "object nested": lambda: (values.Thing(1, values.Thing(1, 2)), values.Thing(1, values.Thing(1, 3))),
    "decimal": lambda: (decimal.Decimal("1.0"), decimal.Decimal("2.0")),
    "ndarray": lambda: (_np([1, 2]), _np([1, 3])), "ndarray order": lambda: (_np([1, 2]), _np([2, 1])),
    "ndarray 2d": lambda: (_np([[1, 2], [3, 4]]), _np([[1, 3], [2, 4]])),
    "ndarray length": lambda: (_np([0]), _np([0, 0])),
    "list of ndarray": lambda: ([_np([1, 2])], [_np([1, 3])]),
    "series": lambda: (_pd().Series([1, 2]), _pd().Series([1, 3])),
    "series order": lambda: (_pd().Series([1, 2]), _pd().Series([2, 1])),
    "series index": lambda: (_pd().Series([1, 2], index=[0, 1]), _pd().Series([1, 2], index=[1, 2])),
    "series duplicate index": lambda: (_pd().Series([1, 2], index=[0, 0]), _pd().Series([5, 2], index=[0, 0])),
    "series length": lambda: (_pd().Series([1]), _pd().Series([1, 1])),
    "frame": lambda: (_pd().DataFrame({"a": [1, 2]}), _pd().DataFrame({"a": [1, 3]})),
    "frame row order": lambda: (_pd().DataFrame({"a": [1, 2]}, index=[0, 1]), _pd().DataFrame({"a": [2, 1]}, index=[1, 0])),
    "frame column": lambda: (_pd().DataFrame({"a": [1], "b": [2]}), _pd().DataFrame({"a": [2], "b": [1]})),
    "frame extra column": lambda: (_pd().DataFrame({"a": [1]}), _pd().DataFrame({"a": [1], "b": [1]})),
    "frame str": lambda: (_pd().DataFrame({"a": ["x"]}), _pd().DataFrame({"a": ["y"]})),
    "frame dates": lambda: (_pd().DataFrame({"a": _pd().to_datetime(["2020-01-01"])}),
                            _pd().DataFrame({"a": _pd().to_datetime(["2020-01-02"])})),
    "dict of frames": lambda: ({"x": _pd().DataFrame({"a": [1]})}, {"x": _pd().DataFrame({"a": [2]})}),
    # different types or containers whose version coincides
    "int/str": lambda: (1, "1"), "int/bytes": lambda: (1, b"1"), "str/bytes": lambda: ("a", b"a"),
    "bool/str": lambda: (True, "True"), "float/str": lambda: (1.5, "1.5"), "empty str/bytes": lambda: ("", b""),
    "list/tuple": lambda: ([1, 2], (1, 2)), "list/set": lambda: ([1], {1}), "empty list/dict": lambda: ([], {}),
    "empty list/tuple": lambda: ([], ()), "empty dict/set": lambda: ({}, set()),
    "list of int/str": lambda: ([1], ["1"]), "dict of int/str": lambda: ({"a": 1}, {"a": "1"}),
    "dict key int/str": lambda: ({1: "a"}, {"1": "a"}), "list/dict": lambda: (["a", 1], {"a": 1}),
    "object/dict": lambda: (values.Thing(1, 2), {"a": 1, "b": 2}),
    "object class": lambda: (values.Thing(1, 2), Other(1, 2)),
    "list of decimal": lambda: ([decimal.Decimal("1.0")], [decimal.Decimal("2.0")]),
    "object beyond depth": lambda: (_deep(1, 9), _deep(2, 9)),
    "ndarray shape": lambda: (_np([1, 2, 3, 4]), _np([[1, 2], [3, 4]])),
    "ndarray dtype": lambda: (_np([1], dtype="int64"), _np([5e-324], dtype="float64")),
    "frame column name": lambda: (_pd().DataFrame({"a": [1]}), _pd().DataFrame({"b": [1]})),
    "series name": lambda: (_pd().Series([1], name="a"), _pd().Series([1], name="b")),
    "empty frame columns": lambda: (_pd().DataFrame({"a": []}), _pd().DataFrame({"b": []})),
}
PAIR_NAMES = sorted(PAIRS)


def pcanon(v):
    if isinstance(v, (Other, Deep)):
        return (type(v).__name__, tuple((k, pcanon(x)) for k, x in sorted(vars(v).items())))
    return values.canon(v)


def gen(rng, i, tier):
    from scenarios import common

    if i < 2 * len(PAIR_NAMES):
        return {"mode": "pair", "pair": PAIR_NAMES[i // 2], "how": ["input", "nodes"][i % 2],
                "sched": common.gen_sched(rng, 0.1)}
    deep = tier == "thorough" and rng.random() < 0.3
    store = rng.choice(["disk", "disk", "disk", "split", "memory"])
    flow = cl.gen_cache_flow(rng, fmt=store != "memory", rich=True, big=True)
    if store != "memory":
        flow["procs"] = 0.15
    lives = cl.gen_history(rng, flow, n_lives=(1, 1) if store == "memory" else (1, 4 if deep else 3),
                           n_execs=(2, 6) if store == "memory" or deep else (1, 4), with_fail=0.1)
    return {"mode": "history", "flow": flow, "lives": lives, "store": store, "sched": common.gen_sched(rng, 0.1)}


def run(plan, ctx):
    root = ctx.scratch + "/cache"
    if plan["mode"] == "pair":
        return run_pair(plan, ctx, root)
    flow = plan["flow"]
    for k, lf in enumerate(plan["lives"]):
        def body(sim):
            vfs.attach(ctx.scratch)
            s = cl.Session(sim, flow, root, plan["store"])
            for j, e in enumerate(lf["execs"]):
                out, exc, probe, dr = s.execute(e)
                cl.check_result(flow, e, out, exc, probe, f"life {k} execution {j}")
                sim.event("done", k, j)

        ctx.life(body, start_time=1000.0 * k)


def run_pair(plan, ctx, root):
    """Two different values that pass through the same node one after the other ("input"), or that
    two nodes of one dataflow have at the same time ("nodes")."""
    from hamilton import driver
    from simkit import flows

    a, b = PAIRS[plan["pair"]]()

    class P:
        def get(self, n, v=None):
            return v if n == "f" else {"x": a, "y": b}[n]

    if plan["how"] == "input":
        src = "def f(v: object) -> object:\n    return _H.get('f', v)\n\ndef g(f: object) -> object:\n    return _H.get('f', f)\n"
        execs = [(["f", "g"], {"v": a}, (a, a)), (["f", "g"], {"v": b}, (b, b))]
    else:
        src = "def x() -> object:\n    return _H.get('x')\n\ndef y() -> object:\n    return _H.get('y')\n"
        execs = [(["x", "y"], {}, (a, b)), (["x", "y"], {}, (a, b))]
    got = []
    for k, (final, inputs, want) in enumerate(execs):
        def body(sim):
            vfs.attach(ctx.scratch)
            mod = flows.build_module(src, P(), name="simflow_pair")
            dr = driver.Builder().with_modules(mod).with_cache(path=root).build()
            out = dr.execute(final, inputs=inputs)
            return [pcanon(out[n]) for n in final], [pcanon(w) for w in want]

        st, (out, want) = ctx.life(body)
        if out != want:
            raise Violation("value-collision",
                            f"pair [{plan['pair']}] as {plan['how']}: got {values.short(out)} expected {values.short(want)}")


def shrink(plan):
    from scenarios import common

    if plan["mode"] == "pair":
        return
    yield from cl.shrink_history(plan)
    if plan["store"] != "disk":
        yield dict(plan, store="disk")
    yield from common.shrink_sched(plan)
