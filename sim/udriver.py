"""Interpreter of generated programs (see spec/UnidistAPI.tla for the meaning of the operations).

The source of this file is executed in `__main__` of the controller (user code travels by value) or imported as a
module (by reference), depending on the run configuration.
"""
import asyncio
import collections
import time

import ulog
import uval
from ulog import log

EXC = [ValueError, KeyError, RuntimeError, ZeroDivisionError]


class CustomError(Exception):
    """A user exception with extra state."""

    def __init__(self, msg, code=7):
        super().__init__(msg, code)
        self.code = code

    def __str__(self):
        return str(self.args[0])


def make_exc(t):
    j = t % 5
    if j == 4:
        return CustomError("task-%d" % t)
    return EXC[j]("task-%d" % t)


def exc_id(e):
    """Task number the exception belongs to, or -1."""
    seen = 0
    while e is not None and seen < 5:
        s = str(e.args[0]) if e.args else ""
        if type(e) is AttributeError and "'Act'" in s and "'nope_" in s:
            return int(s.split("'nope_")[1].split("'")[0])
        if s.startswith("task-") and s[5:].isdigit():
            t = int(s[5:])
            want = make_exc(t)
            names = [c.__name__ for c in type(e).__mro__]
            if type(want).__name__ in names:
                return t
            return -1
        e = getattr(e, "cause", None) or e.__cause__
        seen += 1
    return -1


def busy(spec):
    d = spec.get("d", 0)
    if d:
        time.sleep(d)


class Unser:
    """A value that cannot be serialised."""

    def __init__(self, t):
        self.t = t

    def __reduce__(self):
        raise make_exc(self.t)


def outputs(spec, vals, extra=()):
    vals = list(vals) + list(extra)
    n = spec["n"]
    t = spec["t"]
    if spec["b"] == "unser":
        log(e="fail", t=t)
        if n == 0:
            raise make_exc(t)
        if n == 1:
            return {"v": [Unser(t)]} if t % 2 else Unser(t)
        return [uval.enc(uval.taskval(t, vals, i, spec["k"])) for i in range(n - 1)] + [Unser(t)]
    if n == 0:
        return "ignored" if t % 2 else None
    if n == 1:
        return uval.enc(uval.taskval(t, vals, 0, spec["k"]))
    out = [uval.enc(uval.taskval(t, vals, i, spec["k"])) for i in range(n)]
    form = spec.get("form", "list")
    if form == "tuple":
        return tuple(out)
    if form == "gen":
        return (o for o in out)
    if form == "deque":
        return collections.deque(out)
    if form == "oarr":
        import numpy as np

        arr = np.empty(n, dtype=object)
        for i, x in enumerate(out):
            arr[i] = x
        return arr
    return out


def argvals(spec, args, kw):
    shapes = spec["a"]
    if len(args) != len(shapes) or sorted(kw) != sorted(k for k, _ in spec["kw"]):
        return [-2]
    vals = [uval.decode_arg(a, s) for a, s in zip(args, shapes)]
    vals += [uval.decode_arg(kw[k], s) for k, s in spec["kw"]]
    return vals


def task(spec, *args, **kw):
    vals = argvals(spec, args, kw)
    t = spec["t"]
    log(e="start", t=t, v=vals)
    busy(spec)
    extra = []
    ret = None
    if spec.get("body"):
        it = Interp(t)
        it.actors = {s[1]: a for a, s in zip(args, spec["a"]) if s[0] == "h"}
        it.run(spec["body"])
        extra = it.acc
        if spec.get("retref"):
            ret = it.refs[spec["retref"]]
        it.refs = it.actors = None
    if spec["b"] == "raise":
        log(e="fail", t=t)
        raise make_exc(t)
    if ret is not None:
        log(e="end", t=t)
        return RefBox(ret)
    out = outputs(spec, vals, extra)
    if spec["b"] == "ok":
        log(e="end", t=t)
    return out


class RefBox:
    """Carries a reference (or actor handle) inside a user object."""

    def __init__(self, ref):
        self.ref = ref


class Act:
    _n = 0

    def __init__(self, spec, *args):
        vals = [uval.decode_arg(a, s) for a, s in zip(args, spec["a"])]
        Act._n += 1
        self.inst = ulog.proc() * 1000 + Act._n
        self.s = vals[0] % uval.P if vals else 0
        self.A = spec["A"]
        self.cond = None
        self.kept = []
        log(e="ctor", A=self.A, i=self.inst, v=vals, K=spec.get("K", 0))
        if spec.get("b") == "raise":
            raise make_exc(1000 + self.A)

    def _vals(self, spec, args, kw):
        return argvals(spec, args, kw)

    def call(self, spec, *args, **kw):
        vals = argvals(spec, args, kw)
        t = spec["t"]
        log(e="start", t=t, v=vals, A=self.A, i=self.inst, s=self.s)
        for sp, a, k in self.kept:
            log(e="heldarg", t=sp["t"], v=argvals(sp, a, k))
        if spec.get("hold") and len(self.kept) < 3:
            self.kept.append((spec, args, kw))
        s = self.s
        busy(spec)
        extra = []
        if spec.get("body"):
            it = Interp(t)
            it.run(spec["body"])
            extra = it.acc
            it.refs = it.actors = None
        if spec["b"] == "raise":
            log(e="fail", t=t)
            raise make_exc(t)
        if spec["b"] == "ok":
            self.s = uval.actorstate(s, t, vals)
        out = outputs(spec, vals, [s] + extra)
        if spec["b"] == "ok":
            log(e="end", t=t, s=self.s)
        return out

    async def acall(self, spec, *args, **kw):
        vals = argvals(spec, args, kw)
        t = spec["t"]
        log(e="start", t=t, v=vals, A=self.A, i=self.inst, s=self.s)
        m = spec.get("m", "sleep")
        if self.cond is None:
            self.cond = asyncio.Event()
        if m == "wait":
            await self.cond.wait()
        elif m == "set":
            self.cond.set()
        elif m == "sleep":
            await asyncio.sleep(spec.get("d", 0.01))
        elif m == "yield":
            for _ in range(3):
                await asyncio.sleep(0)
        s = self.s
        if spec["b"] == "raise":
            log(e="fail", t=t)
            raise make_exc(t)
        if spec["b"] == "ok":
            self.s = uval.actorstate(s, t, vals)
        out = outputs(spec, vals, [])
        if spec["b"] == "ok":
            log(e="end", t=t, s=self.s)
        return out


class Interp:
    fn = None
    cls = None
    fns = {}
    K = 0  # number of the program in a batch (real backends)

    def __init__(self, ctx):
        import unidist

        self.u = unidist
        self.ctx = ctx
        self.refs = {}
        self.actors = {}
        self.copies = {}
        self.acc = []
        self.held = []

    # -- building blocks
    def mkarg(self, d):
        k = d[0]
        if k == "c":
            return uval.enc(d[1])
        if k == "r":
            return self.refs[d[1]]
        if k == "h":
            return self.actors[d[1]]
        items = [self.mkarg(x) for x in d[1]]
        if k == "L":
            return items
        if k == "T":
            return tuple(items)
        return {"k%d" % i: x for i, x in enumerate(items)}

    def ref_id(self, r):
        for i, x in self.refs.items():
            if x is r or x._ref is r._ref or x._ref == r._ref:
                return i
        return -1

    def remote_fn(self, n, form):
        """form: "opt" = per-call override, "dec" = decorator argument."""
        key = n if form == "dec" else None
        if key not in Interp.fns:
            if form == "dec":
                Interp.fns[key] = self.u.remote(num_returns=n)(task)
            else:
                Interp.fns[key] = self.u.remote(task)
        f = Interp.fns[key]
        if form == "dec" or (n == 1 and form != "opt1"):
            return f
        return f.options(num_returns=n)

    def bind(self, op, res):
        rs = op["rs"]
        if res is None:
            shape = 0
        elif isinstance(res, (list, tuple)):
            shape = len(res) if all(self.u.is_object_ref(x) for x in res) else -1
            if len(res) < 2:
                shape = -1
            for i, x in zip(rs, res):
                self.refs[i] = x
        elif self.u.is_object_ref(res):
            shape = 1
            if rs:
                self.refs[rs[0]] = res
        else:
            shape = -1
        log(e="subr", t=op["t"], n=shape)

    def spec(self, op):
        s = {k: op[k] for k in ("t", "n", "b", "k", "a", "kw") if k in op}
        for k in ("d", "body", "form", "m", "retref", "hold"):
            if k in op:
                s[k] = op[k]
        return s

    # -- operations
    def run(self, ops):
        for op in ops:
            f = getattr(self, "op_" + op["o"])
            try:
                f(op)
            except Exception as e:
                log(e="operr", o=op["o"], x=type(e).__name__ + ": " + str(e)[:200], t=op.get("t", 0), c=self.ctx)

    def op_put(self, op):
        obj = uval.enc(op["v"])
        log(e="put", r=op["r"], c=self.ctx)
        self.refs[op["r"]] = self.u.put(obj)
        log(e="putr", r=op["r"], c=self.ctx)
        if op.get("mut"):
            mutate(obj)

    def op_sub(self, op):
        args = [self.mkarg(a) for a in op["a"]]
        kw = {k: self.mkarg(a) for k, a in op["kw"]}
        f = self.remote_fn(op["n"], op.get("f", "opt"))
        log(e="sub", t=op["t"], c=self.ctx)
        self.bind(op, f.remote(self.spec(op), *args, **kw))
        if op.get("mut"):
            self.mutate_args(op, args, kw)

    def op_actor(self, op):
        if Interp.cls is None:
            Interp.cls = self.u.remote(Act)
        args = [self.mkarg(a) for a in op["a"]]
        log(e="actor", A=op["A"], c=self.ctx)
        self.actors[op["A"]] = Interp.cls.remote({"A": op["A"], "a": op["a"], "K": Interp.K, "b": op.get("b", "ok")}, *args)
        log(e="actorr", A=op["A"])

    def op_call(self, op):
        args = [self.mkarg(a) for a in op["a"]]
        kw = {k: self.mkarg(a) for k, a in op["kw"]}
        name = "nope_%d" % op["t"] if op["b"] == "nometh" else "acall" if op.get("m") else "call"
        m = getattr(self.actors[op["A"]], name)
        log(e="sub", t=op["t"], c=self.ctx)
        if op["n"] != 1 or op.get("f") == "opt1":
            m = m.options(num_returns=op["n"])
        self.bind(op, m.remote(self.spec(op), *args, **kw))
        if op.get("mut"):
            self.mutate_args(op, args, kw)

    def mutate_args(self, op, args, kw):
        """In-place changes of objects passed by value to a call that was just submitted."""
        for d, x in list(zip(op["a"], args)) + [(d, kw[k]) for k, d in op["kw"]]:
            if d[0] == "c":
                mutate(x)
            elif d[0] == "L":
                for dd, y in zip(d[1], x):
                    if dd[0] == "c":
                        mutate(y)
                x[:] = []

    def op_get(self, op):
        log(e="geti", g=op["g"], c=self.ctx)
        try:
            if op["l"]:
                raw = self.u.get([self.refs[r] for r in op["rs"]])
                ok = type(raw) is list
            else:
                raw = [self.u.get(self.refs[op["rs"][0]])]
                ok = True
            vals = [uval.decode(v) for v in raw] if ok else [-3]
            if op.get("hold") and ok and len(self.held) < 6:
                self.held.append((op["g"], raw))
        except Exception as e:
            x = exc_id(e)
            log(e="getx", g=op["g"], x=x, why=(type(e).__name__ + ": " + str(e)[:300]) if x < 0 else "")
            return
        self.acc.extend(vals)
        log(e="getr", g=op["g"], v=vals)

    def op_get2(self, op):
        """Get a reference that was returned inside another object."""
        log(e="geti", g=op["g"], c=self.ctx)
        try:
            box = self.u.get(self.refs[op["rs"][0]])
            v = self.u.get(box.ref)
            vals = [uval.decode(v)]
        except Exception as e:
            x = exc_id(e)
            log(e="getx", g=op["g"], x=x, why=(type(e).__name__ + ": " + str(e)[:300]) if x < 0 else "")
            return
        self.acc.extend(vals)
        log(e="getr", g=op["g"], v=vals)

    def op_wait(self, op):
        lst = [self.refs[r] for r in op["rs"]]
        orig = list(lst)
        log(e="waiti", w=op["w"], c=self.ctx)
        try:
            rdy, nr = self.u.wait(lst, num_returns=op["n"])
            ok = len(lst) == len(orig) and all(a is b for a, b in zip(lst, orig))
            ok = ok and type(rdy) is list and type(nr) is list
            log(e="waitr", w=op["w"], rdy=[self.ref_id(x) for x in rdy], nr=[self.ref_id(x) for x in nr], ok=bool(ok))
        except Exception as e:
            log(e="waitx", w=op["w"], why=type(e).__name__ + ": " + str(e)[:300])

    def op_del(self, op):
        log(e="del", rs=op["rs"], c=self.ctx)
        for r in op["rs"]:
            x = [self.refs.pop(r, None)]
            if r % 2:
                x.append(x)  # collected some time later, at an arbitrary point
            x = None

    def op_dela(self, op):
        if self.copies.get(op["A"]):
            self.copies[op["A"]].pop()
            log(e="delh", A=op["A"])
            return
        self.actors.pop(op["A"], None)
        log(e="dela", A=op["A"])

    def op_dupa(self, op):
        """Second handle of an actor, as a transfer to another process would make it."""
        import cloudpickle

        self.copies.setdefault(op["A"], []).append(cloudpickle.loads(cloudpickle.dumps(self.actors[op["A"]])))
        if op.get("swap"):
            c = self.copies[op["A"]]
            self.actors[op["A"]], c[-1] = c[-1], self.actors[op["A"]]

    def op_sleep(self, op):
        time.sleep(op["d"])

    def recheck(self):
        """Values received earlier must not change behind the caller's back."""
        for g, raw in self.held:
            log(e="held", g=g, v=[uval.decode(v) for v in raw])

    def op_settle(self, op):
        self.recheck()
        ulog.settle()
        log(e="settle")

    def op_churn(self, op):
        """API traffic with short-lived objects, so that clean-up gets triggered."""
        for i in range(op["n"]):
            r = self.u.put(uval.enc(op["v"]))
            if op.get("get"):
                if uval.decode(self.u.get(r)) != op["v"]:
                    log(e="operr", o="churn", x="wrong value", t=0, c=self.ctx)
            if op.get("task"):
                f = self.remote_fn(1, "opt")
                sp = {"t": 0, "n": 1, "b": "ok", "k": 0, "a": [["r", 0]], "kw": []}
                q = self.u.remote(noop).remote(r) if False else f.remote(sp, r)
                if op.get("get"):
                    self.u.get(q)
                del q
            if i % 3 == 2:
                r = [r]
                r.append(r)
            del r
            if op.get("d"):
                time.sleep(op["d"])
        self.recheck()

    def op_reclaim(self, op):
        """API traffic and pauses after which the data of dropped references has to be gone."""
        ulog.settle()
        f = self.remote_fn(1, "opt")
        for i in range(op["n"]):
            rs = []
            for j in range(12):
                r = self.u.put(7)
                if self.u.get(r) != 7:
                    raise AssertionError("wrong value")
                rs.append(r)
            if op.get("task"):
                rs += [f.remote({"t": 0, "n": 1, "b": "ok", "k": 0, "a": [], "kw": []}) for _ in range(op["task"])]
                self.u.get(rs[-op["task"]:])
            del r, rs
            ulog.collect()
            time.sleep(2)
            ulog.settle()

    def op_flood(self, op):
        """Objects whose total size exceeds the shared memory several times, few of them alive at a time."""
        held = None
        for i in range(op["n"]):
            rs = [self.u.put(uval.enc(op["v"])) for _ in range(6)]
            for r in rs * 2:
                if uval.decode(self.u.get(r)) != op["v"]:
                    log(e="operr", o="flood", x="wrong value", t=0, c=self.ctx)
            # half of the values outlive their references by a round (and so a clean-up)
            if held is not None and any(uval.decode(x) != op["v"] for x in held):
                log(e="operr", o="flood", x="held value changed", t=0, c=self.ctx)
            held = self.u.get(rs[:3])
            rs += [self.u.put(j) for j in range(6)]
            del r, rs
            ulog.collect()
            time.sleep(2)
            ulog.settle()

    def op_big(self, op):
        """Requests that the shared memory can not meet: they may fail, but nothing else may suffer."""
        import numpy as np

        def fits(r, want):
            try:
                x = self.u.get(r)
            except Exception:
                return
            if type(x) is not np.ndarray or x.shape != (want,) or x[0] != 7 or x[-1] != 7 or x.sum() != 7 * want:
                log(e="operr", o="big", x="wrong value", t=0, c=self.ctx)

        if op["mode"] == "put":
            try:
                fits(self.u.put(np.full(op["n"], 7, dtype=np.uint8)), op["n"])
            except MemoryError:
                pass
        elif op["mode"] == "out":
            fits(self.u.remote(bigtask).remote(op["n"]), op["n"])
        else:
            rs = {}
            for i in range(op["n"]):
                try:
                    rs[i] = self.u.put("value-%d" % i)
                except MemoryError:
                    pass
            for i, r in rs.items():
                if self.u.get(r) != "value-%d" % i:
                    log(e="operr", o="big", x="wrong value", t=0, c=self.ctx)
            keep = rs.pop(min(rs), None) if rs else None
            r = rs = None
            for _ in range(14):
                # the clean-up gets time and API traffic to run
                ulog.collect()
                time.sleep(2)
                if keep is not None:
                    self.u.get(keep)
                ulog.settle()
            keep = None
        ulog.collect()

    def op_scan(self, op):
        res = ulog.scan([])
        log(e="scan", hs=sorted(set(sum((x or [] for x in res.values()), []))), by={str(k): v for k, v in res.items() if v})

    def op_cfgscan(self, op):
        names = ["Backend", "CpuCount", "MpiSpawn", "MpiHosts", "MpiPickleThreshold", "MpiBackoff", "MpiLog", "MpiSharedObjectStore",
                 "MpiSharedObjectStoreMemory", "MpiSharedServiceMemory", "MpiSharedObjectStoreThreshold"]
        res = ulog.scan({"names": names})
        log(e="cfgs", by={str(k): v for k, v in res.items()})

    def op_wire(self, op):
        """Values of spec/Wire.tla through puts, arguments and results; records digests of what arrives where."""
        import unidist.config as c
        import uwire

        thr = c.MpiPickleThreshold.get()
        echo = self.u.remote(wire_echo)
        make = self.u.remote(wire_make)
        act = self.u.remote(WireActor).remote() if op.get("actor") else None
        todo = []
        for i, (tree, h, modes) in enumerate(op["vals"]):
            v = uwire.build(tree, h, thr)
            ref = None
            for m in modes:
                try:
                    if m in ("put", "arg", "arg2", "nest", "mput"):
                        if ref is None:
                            ref = self.u.put(v)
                    if m == "put":
                        todo.append((i, m, "v", ref))
                        todo.append((i, m, "v", ref))
                    elif m == "arg":
                        todo.append((i, m, "p", echo.remote(ref)))
                    elif m == "arg2":
                        todo.append((i, m, "p", echo.remote(ref)))
                        todo.append((i, m, "p", echo.remote(x=ref)))
                    elif m == "val":
                        todo.append((i, m, "p", echo.remote(v)))
                    elif m == "nest":
                        todo.append((i, m, "p", echo.remote([ref, {"z": ref}], nested=True)))
                    elif m == "make":
                        r = make.remote(tree, h, thr)
                        todo.append((i, m, "v", r))
                        todo.append((i, m, "p", echo.remote(r)))
                    elif m == "multi":
                        r = make.options(num_returns=2).remote(tree, h, thr, 2)
                        todo += [(i, m, "v", q) for q in r]
                    elif m == "actor" and act is not None:
                        todo.append((i, m, "p", act.echo.remote(v)))
                    elif m == "mput":
                        todo.append((i, m, "p", act.echo.remote(ref)) if act is not None else (i, m, "v", ref))
                except Exception as e:
                    log(e="wire", i=i, m=m, w=uwire.digest(v), g=["exc " + type(e).__name__ + " " + str(e)[:200]])
            del v, ref
        r = None
        if op.get("bulk"):
            for k in range(0, len(todo), 7):
                part = todo[k : k + 7]
                try:
                    got = self.u.get([t[3] for t in part])
                except Exception as e:
                    got = [e] * len(part)
                for (i, m, kind, _), x in zip(part, got):
                    self.wire_note(op, i, m, kind, x, thr)
                part = got = x = None
        else:
            for i, m, kind, q in todo:
                try:
                    x = self.u.get(q)
                except Exception as e:
                    x = e
                self.wire_note(op, i, m, kind, x, thr)
                x = None
        todo = q = act = None

    def wire_note(self, op, i, m, kind, x, thr):
        import uwire

        tree, h, _ = op["vals"][i]
        if isinstance(x, Exception):
            g = ["exc " + type(x).__name__ + " " + str(x)[:200]]
        elif kind == "v":
            g = [uwire.digest(x)]
        elif type(x) is list and len(x) == 2 and type(x[0]) is list:
            g = list(x[0]) + [uwire.digest(x[1])]
        else:
            g = ["not the result of the function: %r" % type(x)]
        log(e="wire", i=i, m=m, w=uwire.digest(uwire.build(tree, h, thr)), g=g)

    def op_shutdown(self, op):
        log(e="shut")
        self.u.shutdown()
        log(e="shutr")


def wire_echo(x, nested=False):
    import uwire

    if nested:
        if type(x) is not list or len(x) != 2 or type(x[1]) is not dict or list(x[1]) != ["z"]:
            return [["container changed"], None]
        return [[uwire.digest(x[0]), uwire.digest(x[1]["z"])], x[0]]
    return [[uwire.digest(x)], x]


def wire_make(tree, h, thr, n=1):
    import uwire

    return uwire.build(tree, h, thr) if n == 1 else [uwire.build(tree, h, thr) for _ in range(n)]


class WireActor:
    def echo(self, x):
        return wire_echo(x)


def bigtask(n):
    import numpy as np

    return np.full(n, 7, dtype=np.uint8)


def noop(*a):
    return None


def mutate(obj):
    """In-place change of everything reachable in an object after put or submission."""
    import numpy as np

    if isinstance(obj, np.ndarray):
        if not obj.flags.writeable:
            # a read-only view does not make the memory constant
            obj = obj.base if isinstance(obj.base, np.ndarray) else obj
        if obj.flags.writeable and obj.size:
            obj[...] = obj.dtype.type(1) if obj.dtype != object else "mutated"
    elif type(obj) is list:
        for x in obj:
            mutate(x)
        obj[:] = ["mutated"]
    elif type(obj) is tuple:
        for x in obj:
            mutate(x)
    elif type(obj) is dict:
        for k in list(obj):
            mutate(obj[k])
        obj["h"] = -5
    elif type(obj) is bytearray:
        obj[:] = b"xx"
    elif type(obj) is set:
        obj.clear()
    elif type(obj).__name__ == "DataFrame":
        obj.iloc[0:3, 0] = -9
        obj["new"] = 1
    elif type(obj).__name__ == "Series":
        obj.iloc[0:3] = -9
    elif hasattr(obj, "h"):
        mutate(obj.payload)
        obj.h = -6


def configure(ucfg, runtime_env=None, preread=False):
    import unidist.config as c

    if runtime_env:
        c.MpiRuntimeEnv.put(runtime_env)
    for name, v in ucfg.items():
        getattr(c, name).put(v)
    if preread:
        # looked at while the settings are still being made
        cur = c.MpiSharedObjectStore.get()
        c.MpiSharedObjectStore.put(not cur)
        c.MpiPickleThreshold.get()
        c.MpiPickleThreshold.get_value_source()
        c.MpiSharedObjectStore.put(cur)


def run_prog(prog, ucfg, cfg):
    import unidist

    configure(ucfg, cfg.get("runtime_env"), cfg.get("preread"))
    unidist.init()
    log(e="init")
    it = Interp(0)
    it.run(prog["ops"])
    log(e="done")


def main(pid, cfg):
    """Entry point of a simulated controller."""
    import sys
    import types

    if cfg.get("scale"):
        uval.set_sizes(cfg["scale"])
    ucfg = dict(cfg.get("ucfg", {}))
    if cfg.get("byvalue"):
        m = types.ModuleType("__main__")
        src = open(__file__).read()
        m.__file__ = __file__
        sys.modules["__main__"] = m
        exec(compile(src, __file__, "exec"), m.__dict__)
        m.run_prog(cfg["prog"], ucfg, cfg)
    else:
        run_prog(cfg["prog"], ucfg, cfg)
