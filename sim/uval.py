"""Values used by the generated programs.

An abstract value is an integer  x = h * 64 + k  where k is the number of the payload kind.  `encode` builds the
concrete Python object, `decode` recognises it and returns x, or -1 when the object is not exactly (type, dtype,
shape, content) what `encode` built.
"""
import numpy as np

P = 9973
KINDS = [
    "int", "str", "bytes", "npsmall", "list", "dict", "tuple", "obj", "npmid", "npbig", "strbig", "bytesbig",
    "npF", "npobj", "df", "bytearray", "set", "float", "bigint", "nested", "npbool", "npempty", "npview", "series",
    "mixbig", "npro", "lst_np", "none", "npmark",
]
KN = {k: i for i, k in enumerate(KINDS)}
SIZES = {"npmid": 300, "npbig": 4000, "strbig": 9000, "bytesbig": 9000}


def set_sizes(scale):
    for k, v in {"npmid": 300, "npbig": 4000, "strbig": 9000, "bytesbig": 9000}.items():
        SIZES[k] = int(v * scale)


class Box:
    """A user-defined class."""

    def __init__(self, h):
        self.h = h
        self.payload = {"h": h, "t": (h, [h])}

    def __eq__(self, o):
        return type(o) is Box and o.__dict__ == self.__dict__

    __hash__ = None


def hv(h):
    return h % P


def enc(x):
    return encode(x // 64, KINDS[x % 64])


def encode(h, kind):
    if kind == "int":
        return h
    if kind == "str":
        return "s%d" % h
    if kind == "bytes":
        return b"b%d" % h
    if kind == "float":
        return h + 0.5
    if kind == "bigint":
        return (1 << 90) + h
    if kind == "npsmall":
        return np.arange(8, dtype=np.float64) + h
    if kind == "list":
        return ["L", h, [h, None, True]]
    if kind == "dict":
        return {"h": h, 7: [h], "n": {"m": (h,)}}
    if kind == "tuple":
        return ("T", h, (h, "x"))
    if kind == "obj":
        return Box(h)
    if kind == "npmid":
        return np.arange(SIZES["npmid"], dtype=np.int64) * 3 + h
    if kind == "npbig":
        return np.arange(SIZES["npbig"], dtype=np.int32) * 5 + h
    if kind == "strbig":
        return ("%07d|" % h) * (SIZES["strbig"] // 8)
    if kind == "bytesbig":
        return (b"%07d|" % h) * (SIZES["bytesbig"] // 8)
    if kind == "npF":
        return np.asfortranarray((np.arange(600, dtype=np.float32) + h).reshape(20, 30))
    if kind == "npobj":
        a = np.empty(3, dtype=object)
        a[:] = ["o", h, None]
        return a
    if kind == "df":
        import pandas as pd

        return pd.DataFrame({"a": np.arange(400) + h, "b": np.arange(400) * 0.5, "c": ["r%d" % (i % 7) for i in range(400)]})
    if kind == "series":
        import pandas as pd

        return pd.Series(np.arange(500) + h, name="S%d" % h)
    if kind == "bytearray":
        return bytearray(b"ba%d" % h)
    if kind == "set":
        return {h, "set"}
    if kind == "nested":
        return [{"k": [h, {"z": (h, b"q")}]}, [], {}, ()]
    if kind == "npbool":
        return np.array([bool((h >> i) & 1) for i in range(16)])
    if kind == "npempty":
        return (np.empty((0, 3), dtype=np.int16), h)
    if kind == "npview":
        return (np.arange(900, dtype=np.int64) + h)[::2]
    if kind == "mixbig":
        return {"h": h, "a": np.arange(SIZES["npbig"] // 2, dtype=np.int32) + h, "b": [np.arange(SIZES["npmid"], dtype=np.int64) - h]}
    if kind == "npro":
        a = (np.arange(SIZES["npmid"], dtype=np.int64) + h)[:]  # read-only view of an array that can change
        a.flags.writeable = False
        return a
    if kind == "lst_np":
        return [np.arange(50, dtype=np.int64) + h + i for i in range(6)]
    if kind == "none":
        return None
    if kind == "npmark":
        return np.frombuffer((b"%07d|" % h) * (SIZES["bytesbig"] // 8), dtype=np.uint8).copy()
    raise ValueError(kind)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return a.tolist() == b.tolist()
        return bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    m = type(a).__module__
    if m.startswith("pandas"):
        return bool(a.equals(b)) and (not hasattr(a, "dtypes") or str(a.dtypes) == str(b.dtypes)) and str(getattr(a, "name", "")) == str(
            getattr(b, "name", "")
        )
    return a == b


def _guess(x):
    """(h, kind) candidates for a received object."""
    t = type(x)
    if x is None:
        return [(0, "none")]
    if t is int:
        return [(x, "int")] if x < (1 << 80) else [(x - (1 << 90), "bigint")]
    if t is float:
        return [(int(x - 0.5), "float")]
    if t is str:
        return [(int(x[1:]), "str")] if x[:1] == "s" else [(int(x[:7]), "strbig")]
    if t is bytes:
        return [(int(x[1:]), "bytes")] if x[:1] == b"b" else [(int(x[:7]), "bytesbig")]
    if t is bytearray:
        return [(int(bytes(x[2:])), "bytearray")]
    if t is set:
        return [([e for e in x if type(e) is int][0], "set")]
    if t is Box or t.__name__ == "Box":
        return [(x.h, "obj")]
    if t is dict:
        return [(x["h"], "mixbig" if "a" in x else "dict")]
    if t is tuple:
        if isinstance(x[0], np.ndarray):
            return [(x[1], "npempty")]
        return [(x[1], "tuple")]
    if t is list:
        if type(x[0]) is dict:
            return [(x[0]["k"][0], "nested")]
        if isinstance(x[0], np.ndarray):
            return [(int(x[0][0]), "lst_np")]
        return [(x[1], "list")]
    if t is np.ndarray:
        if x.dtype == object:
            return [(x[1], "npobj")]
        if x.dtype == np.bool_:
            return [(sum(1 << i for i in range(16) if x[i]), "npbool")]
        if x.dtype == np.uint8:
            return [(int(x[:7].tobytes()), "npmark")]
        h = int(x.flat[0])
        if x.dtype == np.float64:
            return [(h, "npsmall")]
        if x.dtype == np.float32:
            return [(h, "npF")]
        if x.dtype == np.int32:
            return [(h, "npbig")]
        return [(h, "npmid"), (h, "npview"), (h, "npro")]
    if t.__name__ == "DataFrame":
        return [(int(x["a"].iloc[0]), "df")]
    if t.__name__ == "Series":
        return [(int(x.iloc[0]), "series")]
    return []


def decode(x):
    try:
        for h, k in _guess(x):
            if same(x, encode(h, k)):
                return h * 64 + KN[k]
    except Exception:
        pass
    return -1


C_ARG = {"L": 1, "T": 2, "D": 3}


def fold(kind, xs):
    """Abstract value of a container argument."""
    return ((sum((i + 3) * v for i, v in enumerate(xs)) + 11 * len(xs) + C_ARG[kind]) % P) * 64 + 63


def decode_arg(a, shape):
    """shape: the argument descriptor of the program (["c",x] | ["r",id] | ["L"|"T"|"D",[...]])."""
    k = shape[0]
    if k == "h":
        return 0 if type(a).__name__ == "Actor" else -1
    if k in C_ARG:
        want = {"L": list, "T": tuple, "D": dict}[k]
        if type(a) is not want or len(a) != len(shape[1]):
            return -1
        items = list(a.values()) if k == "D" else list(a)
        if k == "D" and list(a) != ["k%d" % i for i in range(len(items))]:
            return -1
        vs = [decode_arg(e, s) for e, s in zip(items, shape[1])]
        return -1 if -1 in vs else fold(k, vs)
    return decode(a)


def taskval(t, vals, i, k):
    if k == KN["none"]:
        return k
    """Output i of task t applied to the abstract argument values."""
    return ((t * 131 + i * 17 + sum((j + 2) * v for j, v in enumerate(vals)) + 7) % P) * 64 + k


def actorstate(s, t, vals):
    return (s * 5 + t * 3 + sum((j + 2) * v for j, v in enumerate(vals)) + 1) % P
