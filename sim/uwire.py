"""Concrete Python values for the trees of spec/Wire.tla, and a digest of everything that makes a value what it is."""
import array
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import hashlib
import io
import operator
import pathlib
import random
import re
import struct
import types
import uuid

import numpy as np


class Color(enum.Enum):
    RED = 1
    BLUE = (2, "b")


class SEnum(str, enum.Enum):
    A = "a"


NT = collections.namedtuple("NT", "x y")


@dataclasses.dataclass(frozen=True)
class FDC:
    a: int
    b: str = "q"


class IntSub(int):
    pass


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


class FloatSub(float):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


class SetSub(set):
    pass


class TupleSub(tuple):
    pass


class ArrSub(np.ndarray):
    pass


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class Reduce:
    def __init__(self, a):
        self.a = a

    def __reduce__(self):
        return (Reduce, (self.a,))


class GetState:
    def __init__(self, a):
        self.a, self.cache = a, "not pickled"

    def __getstate__(self):
        return {"a": self.a}

    def __setstate__(self, s):
        self.a = s["a"]
        self.cache = "not pickled"


class NewArgs:
    def __new__(cls, a):
        o = super().__new__(cls)
        o.a = a
        return o

    def __getnewargs__(self):
        return (self.a,)


class Obj:
    def __init__(self, a):
        self.a = a

    def meth(self, y):
        return (y, self.a)


class Sub(Obj):
    pass


def func(x, *, k=3):
    return x * 2 + k


def main_class():
    def init(self, a):
        self.a = a

    def meth(self, y):
        return (y, "main")

    return type("MainCls", (), {"__init__": init, "meth": meth, "__module__": "__main__", "__qualname__": "MainCls"})


def main_enum():
    return enum.Enum("MainEnum", {"ONE": 1, "TWO": 2}, module="__main__")


def _objarr(*xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def leaf(k, h, thr):
    big = thr + 8 + h % 5
    n8 = big // 8 + 1
    ar = lambda n, dt=np.uint8: (np.arange(n) + h).astype(dt)
    if k in SIMPLE:
        return SIMPLE[k](h)
    if k == "strbig":
        return "s%d" % h + "x" * (thr + 9)
    if k == "bytesbig":
        return b"\x00\xff%d" % h + b"y" * (thr + 9)
    if k == "alt":
        return ar(max(0, thr - 1))
    if k == "aeq":
        return ar(thr)
    if k == "agt":
        return ar(thr + 1)
    if k == "abig":
        return ar(4 * thr + 5)
    if k == "aempty":
        return np.zeros((0,), dtype=np.int32)
    if k == "ashape0":
        return np.zeros((3, 0, 2), dtype=np.float32)
    if k == "azero":
        return np.array(h + 0.25)
    if k == "afort":
        return np.asfortranarray(ar(6 * n8, np.int64).reshape(3, 2 * n8))
    if k == "astride":
        return ar(3 * n8, np.int64)[::3]
    if k == "anegstride":
        return ar(n8, np.int64)[::-1]
    if k == "atrans":
        return ar(2 * n8, np.int64).reshape(2, n8).T
    if k == "abcast":
        return np.broadcast_to(np.int64(h), (2, n8))
    if k == "astruct":
        a = np.zeros(n8, dtype=[("a", "<i4"), ("b", ">f8"), ("c", "S3")])
        a["a"], a["b"], a["c"] = np.arange(n8) + h, h, b"ab"
        return a
    if k == "arec":
        return np.rec.array([(h + i, i * 0.5) for i in range(n8)], dtype=[("x", "<i8"), ("y", "<f8")])
    if k == "aobj":
        return _objarr("o", h, None, (1, 2), {"z": [h]})
    if k == "aobjarr":
        return _objarr(ar(n8, np.int64), h)
    if k == "astr":
        return np.array(["s%d" % h, "äö", ""] * n8)
    if k == "abytes":
        return np.array([b"s%d" % h, b"\xff"] * n8)
    if k == "adt":
        return np.arange(n8).astype("datetime64[ms]") + h
    if k == "acplx":
        return ar(n8, np.complex128) * 1j
    if k == "abe":
        return ar(n8, ">i8")
    if k == "abool":
        return ar(big) % 3 == 1
    if k == "ahalf":
        return ar(big, np.float16)
    if k == "aro":
        a = ar(n8, np.int64)
        a.flags.writeable = False
        return a
    if k == "ashared":
        return np.frombuffer(b"%07d|" % h * n8, dtype=np.uint8)
    if k == "amasked":
        return np.ma.masked_array(ar(n8, np.int64), mask=np.arange(n8) % 3 == 0, fill_value=-7)
    if k == "asub":
        return ar(n8, np.int64).view(ArrSub)
    import pandas as pd

    if k == "df":
        return pd.DataFrame({"a": ar(n8, np.int64), "b": ar(n8, np.int8)})
    if k == "df2":
        return pd.DataFrame({"a": ar(n8, np.int64), "b": np.arange(n8) * 0.5, "c": ["r%d" % (i % 3) for i in range(n8)]}, index=np.arange(n8) + h)
    if k == "dfempty":
        return pd.DataFrame(columns=["x", "y"], index=pd.RangeIndex(0))
    if k == "dfcat":
        return pd.DataFrame({"a": ar(n8, np.int64), "c": pd.Categorical(["u", "v"] * (n8 // 2) + ["w"] * (n8 % 2), categories=["w", "v", "u", "unused"], ordered=True)})
    if k == "dfmi":
        return pd.DataFrame({("A", 1): ar(n8, np.int64), ("B", "z"): np.arange(n8) * 0.5},
                            index=pd.MultiIndex.from_arrays([np.arange(n8), ["i%d" % i for i in range(n8)]], names=["lvl", None]))
    if k == "dftz":
        return pd.DataFrame({"t": pd.date_range("2020-01-01", periods=n8, freq="h", tz="Europe/Berlin"), "d": pd.to_timedelta(np.arange(n8), unit="s")})
    if k == "dfobj":
        return pd.DataFrame({"o": _objarr(Obj(h), None, (1, [2]), b"x")})
    if k == "dfnull":
        return pd.DataFrame({"i": pd.array([1, None] * n8, dtype="Int64"), "s": pd.array(["a", None] * n8, dtype="string"), "b": pd.array([True, None] * n8, dtype="boolean")})
    if k == "dfslice":
        return pd.DataFrame({"a": ar(2 * n8, np.int64), "b": np.arange(2 * n8) * 0.5}).iloc[1::2]
    if k == "dfattrs":
        d = pd.DataFrame({"a": ar(n8, np.int64)})
        d.attrs["note"] = {"h": h}
        return d
    if k == "dfdup":
        d = pd.DataFrame(ar(2 * n8, np.int64).reshape(n8, 2))
        d.columns = ["x", "x"]
        return d
    if k == "ser":
        return pd.Series(ar(n8, np.int64), name=("n", h), index=pd.Index(np.arange(n8) * 2, name="ix"))
    if k == "serstr":
        return pd.Series(["s%d" % h, None, "ü"], name=5)
    if k == "sercat":
        return pd.Series(pd.Categorical([1, 2, 1]))
    if k == "sersub":
        return pd.Series(pd.arrays.SparseArray([0, 0, h + 1] * n8))
    if k == "serper":
        return pd.Series(pd.period_range("2020-01", periods=n8, freq="M"))
    if k == "pdindex":
        return pd.Index(["a%d" % h, "b"], name="nm")
    if k == "pdmindex":
        return pd.MultiIndex.from_product([[1, h + 2], ["x", "y"]], names=["p", "q"])
    if k == "pdinterval":
        return pd.interval_range(0, 3)
    if k == "timestamp":
        return pd.Timestamp("2021-05-06 07:08:09.000000123", tz="UTC")
    if k == "pdna":
        return pd.NA
    if k == "nat":
        return pd.NaT
    raise ValueError(k)


def _closure(h):
    y = [h, {"z": h}]

    def inner(x):
        return (x, y)

    return inner


def _ddict(h):
    d = collections.defaultdict(list)
    d["k"].append(h)
    return d


def _msg(name, *a):
    import msgpack

    return getattr(msgpack, name)(*a)


def _bytesio(h):
    b = io.BytesIO(b"abc%d" % h)
    b.read(2)
    return b


def _stringio(h):
    b = io.StringIO("abc%d" % h)
    b.read(1)
    return b


SIMPLE = {
    "none": lambda h: None, "true": lambda h: True, "false": lambda h: False, "zero": lambda h: 0, "int": lambda h: h, "negint": lambda h: -h - 1,
    "imax": lambda h: (1 << 63) - 1, "imin": lambda h: -(1 << 63), "umax": lambda h: (1 << 64) - 1, "float": lambda h: h + 0.1,
    "nan": lambda h: float("nan"), "inf": lambda h: float("inf"), "ninf": lambda h: float("-inf"), "negzero": lambda h: -0.0, "tiny": lambda h: 5e-324,
    "str0": lambda h: "", "str": lambda h: "s%d" % h, "struni": lambda h: "ä\u20ac\U0001f600%d" % h, "strsur": lambda h: "\udcff%d" % h,
    "strnul": lambda h: "a\x00b%d" % h, "bytes0": lambda h: b"", "bytes": lambda h: b"\x00\xff%d" % h, "list0": lambda h: [], "dict0": lambda h: {},
    "bigint": lambda h: (1 << 64) + h, "negbig": lambda h: -(1 << 70) - h, "complex": lambda h: complex(h, -0.5), "tuple0": lambda h: (),
    "frozen0": lambda h: frozenset(), "ellipsis": lambda h: ..., "notimpl": lambda h: NotImplemented, "range": lambda h: range(1, h + 9, 3),
    "slice": lambda h: slice(1, h, None), "date": lambda h: datetime.datetime(2020, 1, 2, 3, 4, 5, 678 + h % 100, tzinfo=datetime.timezone.utc),
    "timedelta": lambda h: datetime.timedelta(days=h, microseconds=1), "decimal": lambda h: decimal.Decimal("%d.50" % h),
    "fraction": lambda h: fractions.Fraction(h, 7), "uuid": lambda h: uuid.UUID(int=h), "enum": lambda h: Color.BLUE, "namedtuple": lambda h: NT(h, [h]) if False else NT(h, "y"),
    "frozendc": lambda h: FDC(h), "intsub": lambda h: IntSub(h), "strsub": lambda h: StrSub("s%d" % h), "bytessub": lambda h: BytesSub(b"b%d" % h),
    "floatsub": lambda h: FloatSub(h + 0.5), "npint": lambda h: np.int64(h), "npfloat32": lambda h: np.float32(h + 0.1), "npbool": lambda h: np.bool_(True),
    "npdt": lambda h: np.datetime64(h, "ns"), "npstr": lambda h: np.str_("n%d" % h), "nptd": lambda h: np.timedelta64(h, "D"),
    "func": lambda h: func, "lambda": lambda h: (lambda x, h=h: x + h), "closure": _closure, "class": lambda h: Obj, "builtin": lambda h: len,
    "npufunc": lambda h: np.add, "type": lambda h: int, "partial": lambda h: functools.partial(func, k=h), "path": lambda h: pathlib.PurePosixPath("/a/%d" % h),
    "maincls": lambda h: main_class(), "pattern": lambda h: re.compile("a%d+" % h, re.I), "msgts": lambda h: _msg("Timestamp", h, 5),
    "strenum": lambda h: SEnum.A, "genericalias": lambda h: dict[str, list[int]],
    "set0": lambda h: set(), "deque": lambda h: collections.deque([1, h], maxlen=5), "odict": lambda h: collections.OrderedDict([("b", 1), ("a", h)]),
    "ddict": _ddict, "counter": lambda h: collections.Counter({"a": h, "b": 2}), "listsub": lambda h: ListSub([1, h]), "dictsub": lambda h: DictSub(a=h),
    "setsub": lambda h: SetSub([1, h]), "tuplesub": lambda h: TupleSub((1, h)), "slots": lambda h: Slots(h, [h]), "reduce": lambda h: Reduce(h),
    "getstate": lambda h: GetState(h), "newargs": lambda h: NewArgs(h), "mainobj": lambda h: main_class()(h), "mainenum": lambda h: main_enum().TWO,
    "bound": lambda h: Obj(h).meth, "simplens": lambda h: types.SimpleNamespace(a=h, b=[h]), "keysview": lambda h: {"a": 1, h: 2}.keys(),
    "array": lambda h: array.array("d", [1.5, h]), "exprgetter": lambda h: operator.itemgetter(1, h), "stringio": _stringio, "bytesio": _bytesio,
    "random": lambda h: random.Random(h), "module": lambda h: operator, "bytearray": lambda h: bytearray(b"ba%d" % h),
    "exttype": lambda h: _msg("ExtType", 1, b"user%d" % h),
}


def build(t, h, thr):
    c = t["c"]
    k = t["k"]
    if not c:
        return leaf(k, h, thr)
    xs = [build(x, h + 1 + i, thr) for i, x in enumerate(c)]
    x = xs[0]
    if k == "list":
        return xs
    if k == "dict":
        return {("k%d" % i if i % 2 == 0 else i): x for i, x in enumerate(xs)}
    if k == "tuple":
        return tuple(xs)
    if k == "obj":
        return Sub(x)
    if k == "odict1":
        return collections.OrderedDict(z=x)
    if k == "deque1":
        return collections.deque([x])
    if k == "objarr":
        return _objarr(x, None)
    if k == "dfcell":
        import pandas as pd

        return pd.DataFrame({"o": _objarr(x, None), "n": [1, h]})
    if k == "defarg":

        def f(a=x):
            return 1

        return f
    if k == "partialarg":
        return functools.partial(func, x)
    if k == "mainattr":
        return main_class()(x)
    if k == "set":
        return {x, "other"}
    if k == "frozenset":
        return frozenset([x, 12345678])
    if k == "dictk":
        return {"first": 0, x: h, "last": [1]}
    if k == "tupkey":
        return {(x, 1): h}
    raise ValueError(k)


def tn(x):
    t = type(x)
    return t.__module__ + "." + t.__qualname__


def canon(x, out, depth=0):
    """Appends a description of x (types and content) to out."""
    if depth > 40:
        out.append("<deep>")
        return
    rec = lambda y: canon(y, out, depth + 1)
    t = type(x)
    out.append("<" + tn(x))
    if x is None or t in (bool, int, decimal.Decimal, fractions.Fraction, range, uuid.UUID, complex, type(...), type(NotImplemented)):
        out.append(repr(x))
    elif isinstance(x, enum.Enum):
        out.append(x.name)
        rec(x.value)
    elif t is float:
        out.append(struct.pack("!d", x).hex())
    elif isinstance(x, np.generic):
        out.append("%s %s" % (x.dtype.str, x.tobytes().hex()))
    elif isinstance(x, str):
        out.append(x.encode("utf-8", "surrogatepass").hex())
    elif isinstance(x, (bytes, bytearray)):
        out.append(bytes(x).hex())
    elif isinstance(x, int):
        out.append(repr(int(x)))
    elif isinstance(x, float):
        out.append(struct.pack("!d", float(x)).hex())
    elif isinstance(x, np.ndarray):
        out.append("%s %s" % (x.dtype.descr if x.dtype.names else x.dtype.str, x.shape))
        if isinstance(x, np.ma.MaskedArray):
            m = np.ma.getmaskarray(x)
            out.append(m.tobytes().hex() + " " + repr(x.fill_value))
            out.append(np.where(m, 0, np.asarray(x.data)).tobytes().hex())
        elif x.dtype == object:
            for y in x.ravel().tolist() if x.ndim != 1 else list(x):
                rec(y)
        else:
            out.append(np.ascontiguousarray(np.asarray(x)).tobytes().hex())
    elif t.__module__.startswith("pandas"):
        _pandas(x, out, rec)
    elif isinstance(x, (list, tuple, collections.deque)):
        if isinstance(x, collections.deque):
            out.append(str(x.maxlen))
        out.append(str(len(x)))
        for y in x:
            rec(y)
        _state(x, rec)
    elif isinstance(x, dict):
        if isinstance(x, collections.defaultdict):
            rec(x.default_factory)
        for k, y in x.items():
            rec(k)
            rec(y)
        _state(x, rec)
    elif isinstance(x, (set, frozenset)):
        items = []
        for y in x:
            o = []
            canon(y, o, depth + 1)
            items.append("".join(o))
        out += sorted(items)
    elif t is type({}.keys()):
        for y in x:
            rec(y)
    elif isinstance(x, types.FunctionType):
        out.append("%s %s" % (x.__name__, hashlib.sha1(x.__code__.co_code).hexdigest()))
        rec(x.__defaults__)
        rec(x.__kwdefaults__)
        rec(x.__code__.co_consts[-1] if isinstance(x.__code__.co_consts[-1], (int, str, type(None))) else None)
        for c in x.__closure__ or ():
            rec(c.cell_contents)
    elif isinstance(x, types.MethodType):
        out.append(x.__name__)
        rec(x.__self__)
    elif isinstance(x, functools.partial):
        rec(x.func)
        rec(x.args)
        rec(x.keywords)
    elif isinstance(x, type):
        out.append(x.__module__ + "." + x.__qualname__)
        out.append(" ".join(sorted(n for n in vars(x) if n[:2] != "__" or n == "__init__")))
    elif isinstance(x, types.ModuleType):
        out.append(x.__name__)
    elif isinstance(x, (types.BuiltinFunctionType, np.ufunc)):
        out.append(x.__name__)
    elif isinstance(x, (io.StringIO, io.BytesIO)):
        rec(x.getvalue())
        rec(x.tell())
    elif isinstance(x, random.Random):
        rec(x.getstate())
    elif isinstance(x, array.array):
        out.append(x.typecode)
        rec(x.tolist())
    elif isinstance(x, Slots):
        rec([x.a, x.b])
    elif hasattr(x, "__dict__") and not isinstance(x, type(dict[int, int])):
        rec(dict(sorted(x.__dict__.items())))
    else:
        out.append(repr(x))
    out.append(">")


def _state(x, rec):
    if type(x).__module__ != "builtins" and getattr(x, "__dict__", None):
        rec(dict(x.__dict__))


def _pandas(x, out, rec):
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        rec(x.columns)
        rec(x.index)
        for i in range(x.shape[1]):
            _pandas(x.iloc[:, i], out, rec)
        rec(dict(x.attrs))
    elif isinstance(x, pd.Series):
        rec(x.name)
        rec(x.index)
        _dtype(x.dtype, out, rec)
        rec(list(x))
        rec(dict(x.attrs))
    elif isinstance(x, pd.MultiIndex):
        rec(list(x.names))
        rec(x.tolist())
    elif isinstance(x, pd.Index):
        rec(x.name)
        _dtype(x.dtype, out, rec)
        rec(x.tolist())
    elif x is pd.NaT or x is pd.NA:
        pass
    else:
        out.append(repr(x))


def _dtype(d, out, rec):
    out.append(str(d))
    if hasattr(d, "categories"):
        rec(d.categories)
        out.append(str(d.ordered))


def digest(x):
    out = []
    try:
        canon(x, out)
    except Exception as e:
        return "undigestible %s %s" % (type(e).__name__, e)
    s = "".join(out)
    return "%s %s" % (tn(x), hashlib.sha1(s.encode()).hexdigest()[:20])
