"""Values of the standard data types, derived from an integer; canonical forms for comparison."""

import datetime
import hashlib

TYPES = ["int", "str", "float", "bytes", "bool", "optint", "list", "tuple", "set", "dict", "nested",
         "listdict", "datetime", "obj", "ndarray", "series", "dupseries", "frame"]
BIG = ["biglist", "bigstr", "bigdict", "bigbytes", "bigarr", "bigframe", "bigseries"]
LIGHT = ["int", "str", "float", "bytes", "bool", "optint", "list", "tuple", "set", "dict", "nested", "jsondict"]

ANN = {"int": "int", "str": "str", "float": "float", "bytes": "bytes", "bool": "bool",
       "optint": "object", "list": "list", "tuple": "tuple", "set": "set", "dict": "dict",
       "nested": "dict", "listdict": "list", "datetime": "object", "obj": "object",
       "ndarray": "_np.ndarray", "series": "_pd.Series", "dupseries": "_pd.Series",
       "frame": "_pd.DataFrame", "bigstr": "str", "jsondict": "dict",
       "biglist": "list", "bigdict": "dict", "bigbytes": "bytes", "bigarr": "_np.ndarray",
       "bigframe": "_pd.DataFrame", "bigseries": "_pd.Series", "evil": "object", "odd": "object"}


class Thing:
    """A user-defined class, versioned by its attributes."""

    def __init__(self, a, b):
        self.a = a
        self.b = b


class Evil(dict):
    """A value no one can look into: whatever a data capture tries raises."""

    def __init__(self, h):
        dict.__init__(self)
        self.h = h

    def _no(self, *a, **k):
        raise RuntimeError("do not look")

    def __reduce__(self):
        return Evil, (self.h,)

    __len__ = __iter__ = keys = values = items = __str__ = __repr__ = _no


def odd(k):
    """Values that are easily mistaken for "nothing there"."""
    return [None, 0, "", [], False, {}][k]


def make(typ, h):
    """A value of type typ; equal integers give equal values, different ones different values
    (except bool, which has two)."""
    if typ is None or typ == "int":
        return h
    if typ == "str":
        return f"s{h}"
    if typ.startswith("big"):
        p = h * 7919 + h // 7  # where the difference lies
    if typ == "bigstr":
        return ("x" * (p % 9000)) + f"s{h}" + "x" * (9000 - p % 9000)
    if typ == "biglist":
        out = list(range(2600))
        out[p % 2600] = -h
        return out
    if typ == "bigdict":
        out = {f"k{i}": i for i in range(1200)}
        out[f"k{p % 1200}"] = -h
        return out
    if typ == "bigbytes":
        out = bytearray(70000)
        out[p % 70000 - 8: p % 70000] = b"%08x" % (h & 0xFFFFFFFF)
        return bytes(out)
    if typ == "bigarr":
        import numpy as np

        out = np.zeros(12000, dtype="int64")
        out[p % 12000] = h + 1
        return out
    if typ in ("bigframe", "bigseries"):
        import pandas as pd

        x = list(range(2500))
        x[p % 2500] = -h
        return pd.DataFrame({"x": x}) if typ == "bigframe" else pd.Series(x)
    if typ == "evil":
        return Evil(h)
    if typ == "odd":
        return odd(h % 9) if h % 9 < 6 else h
    if typ == "float":
        return h / 8.0
    if typ == "bytes":
        return b"b%d" % h
    if typ == "bool":
        return bool(h & 1)
    if typ == "optint":
        return None if h % 5 == 0 else h
    if typ == "list":
        return ["L"] + [h % 7] * (h % 4) + [h, h % 3]
    if typ == "tuple":
        return ("T", h % 3, h)
    if typ == "set":
        return {"S", f"{h}", f"{h % 11}!"}
    if typ == "dict":
        return {"k": h, "m": h % 3} if h & 1 else {"m": h % 3, "k": h}
    if typ == "jsondict":
        return {"k": h, "m": [h % 3, {"z": f"x{h}"}]}
    if typ == "nested":
        return {"a": [h % 5, [h]], "b": {"c": (h % 2, [[h // 2]])}}
    if typ == "listdict":
        return [{"i": i, "v": h + i} for i in range(h % 4)] + [{"i": -1, "v": h}]
    if typ == "datetime":
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=h)
    if typ == "obj":
        return Thing(h % 4, [h])
    if typ == "ndarray":
        import numpy as np

        return np.array([h % 5, h, 3], dtype="int64")
    if typ == "series":
        import pandas as pd

        return pd.Series([h, h % 5, 1], index=[3, 1, 2])
    if typ == "dupseries":
        import pandas as pd

        return pd.Series([h, h % 5, 1], index=[0, 0, 0])
    if typ == "frame":
        import pandas as pd

        return pd.DataFrame({"x": [h % 5, h], "y": ["u", f"v{h % 9}"]})
    raise AssertionError(typ)


def canon(v):
    """A hashable canonical form that distinguishes type and value."""
    c = _canon(v)
    if type(c) is tuple and len(c) > 1 and type(c[-1]) is tuple and len(c[-1]) > 1000:
        return c[:-1] + (hashlib.md5(repr(c[-1]).encode()).hexdigest(),)
    return c


def _canon(v):
    if type(v) is Evil:
        return ("Evil", v.h)
    if v is None or type(v) in (int, str, bool, bytes, float):
        return v if type(v) is int else (type(v).__name__, v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(canon(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted((canon(x) for x in v), key=repr)))
    if isinstance(v, dict):
        return ("dict", tuple(sorted(((canon(k), canon(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, Thing):
        return ("Thing", canon(v.a), canon(v.b))
    if isinstance(v, datetime.datetime):
        return ("datetime", v.isoformat())
    t = type(v).__name__
    if t == "ndarray":
        return ("ndarray", str(v.dtype), v.shape, tuple(v.ravel().tolist()))
    if t == "Series":
        return ("Series", str(v.dtype), repr(v.name), tuple(v.index.tolist()), tuple(v.tolist()))
    if t == "DataFrame":
        return ("DataFrame", tuple(map(str, v.columns)), tuple(map(str, v.dtypes)),
                tuple(v.index.tolist()), tuple(tuple(r) for r in v.astype(object).values.tolist()))
    return (t, repr(v))


def short(c, n=160):
    s = repr(c)
    return s if len(s) <= n else s[: n - 20] + "~" + hashlib.md5(s.encode()).hexdigest()[:8]
