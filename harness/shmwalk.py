"""Explores the reachable states of the real allocator (run with the interpreter of the code under test).

usage: shmwalk.py OUT.json SEED THOROUGH MEMDIR
Writes {"walks": [...], "skipped": [...]}: transitions of FreeMemoryRange and SharedMemoryManager with the blocks
observed before and after each.  Every state is reached by replaying its operations on a fresh object, so nothing
is assumed about how the object keeps its state.
"""
import array
import json
import pickle
import random
import sys


class Range:
    """FreeMemoryRange alone: every block gets a slot of its own."""

    def __init__(self, M, N):
        from unidist.core.backends.mpi.core.monitor import shared_memory_manager as m

        self.M, self.N = M, 10 ** 6
        self.r = m.FreeMemoryRange(M)
        self.blocks = {}
        self.refs, self.pend = [], []

    def used(self):
        return sorted(([i, f, l, i] for i, (f, l) in self.blocks.items()))

    def do(self, op):
        if op[0] == "reserve":
            f, l = self.r.occupy(op[2])
            if f is not None:
                self.blocks[op[1]] = (f, l)
        elif op[0] == "clear":
            for i in op[1]:
                self.r.release(*self.blocks.pop(i))

    def key(self):
        return pickle.dumps(vars(self.r)), json.dumps(sorted(self.blocks.values()))

    def ops(self, nid, sizes):
        out = [("reserve", nid, n) for n in sizes]
        out += [("clear", [i]) for i in self.blocks]
        return out


class Win:
    def Lock(self, *a, **k):
        pass

    Unlock = Lock


class Comm:
    def Get_group(self):
        return self

    def Incl(self, ranks):
        return self

    def Create_group(self, g, *a):
        return self

    def Allreduce(self, src, dst, op=None):
        dst[:] = src


class State:
    global_comm = Comm()
    host_comm = Comm()
    monitor_processes = [1]
    global_rank = 1
    host_rank = 1
    host = "h"
    workers = [2, 3]

    def __getattr__(self, name):
        return lambda *a, **k: True


class Logger:
    def __getattr__(self, name):
        return lambda *a, **k: None


class Manager:
    """SharedMemoryManager over the real bookkeeping of SharedObjectStore (windows are plain arrays)."""

    def __init__(self, M, N):
        from unidist.core.backends.mpi.core import common, communication, shared_object_store
        from unidist.core.backends.mpi.core.monitor import shared_memory_manager as m

        self.M, self.N = M, N
        self.common = common
        SOS = shared_object_store.SharedObjectStore
        st = SOS.__new__(SOS)
        st.win = st.service_win = Win()
        st.shared_buffer = memoryview(bytearray(M))
        st.service_shared_buffer = memoryview(array.array("l", [-1] * (N * SOS.INFO_SIZE)))
        st.shared_memory_size = M
        st.service_info_max_count = N * SOS.INFO_SIZE
        st.logger = Logger()
        import weakref

        st._shared_info = weakref.WeakKeyDictionary()
        st.finalizers = []
        state = State()
        common.is_shared_memory_supported = lambda *a, **k: True
        communication.MPIState.get_instance = staticmethod(lambda *a, **k: state)
        SOS.get_instance = classmethod(lambda cls: st)
        self.INFO = SOS.INFO_SIZE
        self.st = st
        self.m = m.SharedMemoryManager()
        self.ids = {}
        self.refs, self.pend = [], []

    def used(self):
        out = []
        for i, d in self.ids.items():
            r = self.m.get(d)
            if r is not None:
                s = r["service_index"]
                out.append([i, r["first_index"], r["last_index"], s // self.INFO if s % self.INFO == 0 else -1])
        return sorted(out)

    def do(self, op):
        if op[0] == "reserve":
            d = self.common.MpiDataID(0, op[1])
            self.ids[op[1]] = d
            try:
                r = self.m.put(d, op[2])
            except MemoryError:
                return
            self.service(d, r)
            self.refs.append(op[1])
        elif op[0] == "drop":
            d = self.ids[op[1]]
            self.refs.remove(op[1])
            r = self.m.get(d)
            self.st._decrement_ref_number(str(d), r["service_index"])
        elif op[0] == "clear":
            self.m.clear([self.ids[i] for i in op[1]])
            live = {b[0] for b in self.used()}
            self.pend = sorted({i for i in set(self.pend) | set(op[1]) if i in self.refs and i in live})

    def service(self, d, r):
        """What the process that fills the range does afterwards."""
        w, n = self.st._parse_data_id(d)
        b, s, S = self.st.service_shared_buffer, r["service_index"], type(self.st)
        b[s + S.FIRST_DATA_INDEX] = r["first_index"]
        b[s + S.REFERENCES_NUMBER] = 1
        b[s + S.DATA_NUMBER_INDEX] = n
        b[s + S.WORKER_ID_INDEX] = w

    def key(self):
        u = self.used()
        names = {b[0]: k for k, b in enumerate(sorted(u, key=lambda b: b[1]))}
        vs = {k: repr(v) for k, v in vars(self.m).items() if isinstance(v, (list, tuple, int))}
        vs.update({k: repr(vars(v)) for k, v in vars(self.m).items() if type(v).__name__ == "FreeMemoryRange"})
        return (json.dumps([[b[1], b[2], b[3], b[0] in self.refs, b[0] in self.pend] for b in sorted(u, key=lambda b: b[1])]),
                json.dumps({k: v for k, v in sorted(vs.items()) if k != "pending_cleanup"}), json.dumps(sorted(names.get(i, -1) for i in self.pend)))

    def ops(self, nid, sizes):
        live = [b[0] for b in self.used()]
        out = [("reserve", nid, n) for n in sizes]
        out += [("drop", i) for i in live if i in self.refs]
        cand = [i for i in live if i not in self.pend]
        out += [("clear", [i]) for i in cand]
        if len(cand) > 1:
            out.append(("clear", list(cand)))
            out.append(("clear", list(reversed(cand))))
        if self.pend:
            out.append(("clear", []))
        return out


def step(obj, op):
    pre, refs, pend = obj.used(), list(obj.refs), list(obj.pend)
    e = {"o": op[0], "id": op[1] if op[0] != "clear" else 0, "n": op[2] if op[0] == "reserve" else 0, "ids": op[1] if op[0] == "clear" else [],
         "pre": pre, "refs": refs, "pend": pend, "post": [], "x": ""}
    try:
        obj.do(op)
        e["post"] = obj.used()
    except Exception as ex:
        if harness_fault(ex):
            raise Unusable("%s: %s" % (type(ex).__name__, ex))
        e["o"], e["was"], e["x"] = "error", op[0], "%s: %s" % (type(ex).__name__, ex)
    return e


class Unusable(Exception):
    """The stand-ins do not fit the code."""


def harness_fault(ex):
    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if tb.tb_frame.f_code.co_filename == __file__:
        return True
    return isinstance(ex, AttributeError) and any("'%s' object" % n in str(ex) for n in ("Win", "Comm", "Logger", "State", "SharedObjectStore"))


def replay(cls, M, N, path):
    o = cls(M, N)
    for op in path:
        o.do(op)
    return o


def bfs(cls, M, N, limit, maxdepth):
    """All transitions out of the reachable states (shortest history of each state)."""
    walks, seen, todo = [], set(), [()]
    seen.add(cls(M, N).key())
    bad = False
    while todo and len(walks) < limit and not bad:
        path = todo.pop(0)
        ops = replay(cls, M, N, path).ops(len(path) + 1, range(1, M + 2))
        steps = []
        for op in ops:
            o = replay(cls, M, N, path)
            e = step(o, op)
            steps.append(e)
            if e["o"] == "error":
                bad = True
                break
            k = o.key()
            if k not in seen and len(path) < maxdepth:
                seen.add(k)
                todo.append(path + (op,))
        walks.append({"M": o.M, "N": o.N, "path": [list(p) for p in path], "steps": steps})
    return walks, len(seen), not todo


def rand(cls, rng, n):
    M = rng.choice([20, 64, 257, 1000, 10 ** 5])
    N = rng.choice([3, 8, 40])
    o = cls(M, N)
    steps, path = [], []
    sizes = [1, 2, 3, M // 7 + 1, M // 3, M // 2, M, M + 1, M // 11 + 1, M // 5]
    for j in range(n):
        ops = o.ops(j + 1, [rng.choice(sizes), rng.randrange(1, max(2, M // 2))])
        res = [p for p in ops if p[0] == "reserve"]
        oth = [p for p in ops if p[0] != "reserve"]
        op = rng.choice(oth) if oth and rng.random() < 0.55 else rng.choice(res)
        if op[0] == "clear" and op[1] and rng.random() < 0.4:
            op = ("clear", [i for i in op[1] if rng.random() < 0.5] or op[1])
        path.append(list(op))
        e = step(o, op)
        steps.append(e)
        if e["o"] == "error":
            break
    return {"M": o.M, "N": o.N, "path": [], "ops": path, "steps": steps}


def main():
    out, seed, thorough, mem = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sys.path.insert(0, __file__.rsplit("/", 1)[0])
    import paths

    sys.meta_path.insert(0, paths.MemFinder(mem))
    res = {"walks": [], "skipped": [], "info": {}}
    plan = [(Range, 8 if not thorough else 10, 0), (Range, 5, 0), (Manager, 4 if not thorough else 5, 2), (Manager, 3, 3)]
    limit = 6000 if not thorough else 40000
    # the manager last: its stand-ins replace functions of the code under test
    for cls, M, N in plan:
        name = "%s-%d-%d" % (cls.__name__, M, N)
        try:
            cls(M, N).used()
            o = cls(M, N)
            o.ops(1, [1])
        except Exception as ex:
            res["skipped"].append("%s: %s: %s" % (name, type(ex).__name__, ex))
            continue
        try:
            w, n, done = bfs(cls, M, N, limit, 12)
        except Unusable as ex:
            res["skipped"].append("%s: %s" % (name, ex))
            continue
        for x in w:
            x["what"] = name
        res["walks"] += w
        res["info"][name] = {"states": n, "transitions": sum(len(x["steps"]) for x in w), "complete": done}
    rng = random.Random(seed)
    for cls in (Range, Manager):
        if any(s.startswith(cls.__name__) for s in res["skipped"]):
            continue
        for j in range(60 if not thorough else 600):
            w = rand(cls, rng, 60)
            w["what"] = cls.__name__ + "-random"
            res["walks"].append(w)
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
