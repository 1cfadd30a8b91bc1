"""Simulated mpi4py.MPI: every call is an operation posted to the coordinator."""
import mmap
import os
import pickle

import simclient
from simclient import C, real_buffer

ANY_SOURCE = -1
ANY_TAG = -1
COMM_TYPE_SHARED = 1
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = 0, 1, 2, 3
VERSION = 3
SUBVERSION = 1
MAX, MIN, SUM, LOR, LAND = "max", "min", "sum", "lor", "land"
UNDEFINED = -32766
PROC_NULL = -2
LOCK_EXCLUSIVE, LOCK_SHARED = 234, 235
memory = buffer = real_buffer


class Exception(RuntimeError):  # noqa: A001
    pass


class Datatype:
    def __init__(self, name, size):
        self.name, self.size = name, size

    def Get_size(self):
        return self.size


BYTE = Datatype("BYTE", 1)
CHAR = Datatype("CHAR", 1)
INT = Datatype("INT", 4)
LONG = Datatype("LONG", 8)
INT64_T = Datatype("INT64_T", 8)
DOUBLE = Datatype("DOUBLE", 8)


def Is_initialized():
    return C.initialized


def Is_finalized():
    return C.finalized


def Init_thread(required=THREAD_MULTIPLE):
    C.initialized = True
    return THREAD_MULTIPLE


def Init():
    C.initialized = True


def Query_thread():
    return THREAD_MULTIPLE


def Finalize():
    C.op("finalize")
    C.finalized = True


def Get_library_version():
    return C.cfg.get("library", "Open MPI v4.1.6, package: simulated")


def Get_version():
    return (VERSION, SUBVERSION)


def Wtime():
    return C.now


class Info:
    def __init__(self):
        self.d = {}

    @classmethod
    def Create(cls):
        return cls()

    def Set(self, k, v):
        self.d[k] = v

    def Get(self, k, *a):
        return self.d.get(k)

    def Free(self):
        pass


INFO_NULL = Info()


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.count

    def _fill(self, s, t, n):
        self.source, self.tag, self.count = s, t, n


def _view(buf):
    """Flat byte view of anything accepted by the upper-case methods."""
    if isinstance(buf, (tuple, list)):
        buf = buf[0]
    m = memoryview(buf)
    if m.nbytes == 0:
        return memoryview(b"")
    return m.cast("B") if m.ndim != 1 or m.format != "B" else m


class Request:
    _n = 0

    def __init__(self, buf=None):
        Request._n += 1
        self._id = (C.proc, Request._n)
        self._buf = buf
        self._done = False
        self._recv = None
        self._msg = None
        C.requests[self._id] = self

    def _finish(self, status=None):
        self._done = True
        self._buf = None

    def Test(self, status=None):
        return self.test(status)[0]

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        if not self._done:
            r = C.op("rtest", self._id)
            if r is None:
                return (False, None)
            self._complete(r, status)
        return (True, self._msg)

    def wait(self, status=None):
        if not self._done:
            self._complete(C.op("rwait", self._id), status)
        return self._msg

    def _complete(self, r, status):
        self._done = True
        if self._recv is not None:
            src, tag, data = r
            if status is not None:
                status._fill(src, tag, len(data))
            if self._recv == "obj":
                self._msg = pickle.loads(data)
            else:
                _fill_buffer(self._recv, data)
        self._buf = None

    def Cancel(self):
        pass

    def Free(self):
        pass

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.Wait()

    waitall = Waitall

    @staticmethod
    def Testall(reqs, statuses=None):
        return all([r.Test() for r in reqs])


REQUEST_NULL = None


def _fill_buffer(buf, data):
    v = _view(buf)
    if len(data) > len(v):
        raise Exception("MPI_ERR_TRUNCATE: message truncated")
    if data:
        v[: len(data)] = data


class Group:
    def __init__(self, procs):
        self.procs = procs

    def Incl(self, ranks):
        return Group([self.procs[r] for r in ranks])

    def Excl(self, ranks):
        return Group([p for i, p in enumerate(self.procs) if i not in ranks])

    def Get_size(self):
        return len(self.procs)

    Free = lambda self: None


class Comm:
    def __init__(self, cid, procs, remote=None):
        self._cid, self._procs, self._remote = cid, procs, remote

    def __eq__(self, other):
        return isinstance(other, Comm) and self._cid == other._cid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._cid)

    def __bool__(self):
        return self._cid is not None

    @property
    def rank(self):
        return self.Get_rank()

    @property
    def size(self):
        return self.Get_size()

    def Get_rank(self):
        return self._procs.index(C.proc)

    def Get_size(self):
        return len(self._procs)

    def Get_group(self):
        return Group(list(self._procs))

    @staticmethod
    def Get_parent():
        p = C.cfg.get("parent")
        if p is None:
            return COMM_NULL
        return Intercomm(p["cid"], p["local"], p["remote"])

    # -- point to point
    def send(self, obj, dest, tag=0):
        C.op("send", self._cid, dest, tag, pickle.dumps(obj))

    def ssend(self, obj, dest, tag=0):
        C.op("send", self._cid, dest, tag, pickle.dumps(obj), True)

    def Send(self, buf, dest, tag=0):
        C.op("send", self._cid, dest, tag, bytes(_view(buf)))

    def _isend(self, view, dest, tag):
        r = Request(view)
        n = len(view)
        eager = n <= C.cfg.get("eager", 4096)
        if C.op("isend", self._cid, dest, tag, n, bytes(view) if eager else None, r._id):
            r._finish()
        return r

    def isend(self, obj, dest, tag=0):
        return self._isend(memoryview(pickle.dumps(obj)), dest, tag)

    issend = isend

    def Isend(self, buf, dest, tag=0):
        return self._isend(_view(buf), dest, tag)

    Issend = Isend

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, data = C.op("recv", self._cid, source, tag)
        if status is not None:
            status._fill(src, t, len(data))
        return pickle.loads(data)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, data = C.op("recv", self._cid, source, tag)
        if status is not None:
            status._fill(src, t, len(data))
        _fill_buffer(buf, data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        r = Request()
        r._recv = "obj"
        C.op("irecv", self._cid, source, tag, r._id)
        return r

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        r = Request()
        r._recv = buf
        C.op("irecv", self._cid, source, tag, r._id)
        return r

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = C.op("iprobe", self._cid, source, tag)
        if r is None:
            return False
        if status is not None:
            status._fill(*r)
        return True

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = C.op("probe", self._cid, source, tag)
        if status is not None:
            status._fill(*r)
        return True

    Probe = probe

    # -- collectives
    def _coll(self, name, *args):
        return C.op("coll", self._cid, name, args)

    def Barrier(self):
        self._coll("barrier")

    barrier = Barrier

    def allgather(self, obj):
        return [pickle.loads(x) for x in self._coll("allgather", pickle.dumps(obj))]

    def gather(self, obj, root=0):
        r = self.allgather(obj)
        return r if self.Get_rank() == root else None

    def bcast(self, obj, root=0):
        return self.allgather(obj)[root]

    def allreduce(self, obj, op=SUM):
        vals = self.allgather(obj)
        return {"max": max, "min": min, "sum": sum, "lor": any, "land": all}[op](vals)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        import array

        m = memoryview(sendbuf)
        vals = self._coll("allgather", (m.format, m.tolist(), op))
        lens = {len(v[1]) for v in vals}
        if len(lens) != 1:
            C.log({"ev": "mpi_error", "what": "Allreduce length mismatch", "lens": sorted(lens)})
            n = min(lens)
        else:
            n = lens.pop()
        f = {"max": max, "min": min, "sum": sum, "lor": lambda x: int(any(x)), "land": lambda x: int(all(x))}[op]
        out = memoryview(recvbuf)
        for i in range(n):
            out[i] = f([v[1][i] for v in vals])

    def Split_type(self, split_type, key=0, info=None):
        return self._mk(self._coll("split_type", C.cfg_host()))

    def Split(self, color=0, key=0):
        return self._mk(self._coll("split", (color, key)))

    def Dup(self):
        return self._mk(self._coll("dup"))

    def Create_group(self, group, tag=0):
        if C.proc not in group.procs:
            return COMM_NULL
        return self._mk(C.op("create_group", self._cid, tuple(group.procs), tag))

    def Create(self, group):
        return self._mk(self._coll("create", tuple(group.procs)))

    def _mk(self, r):
        if r is None:
            return COMM_NULL
        return Intracomm(r[0], r[1])

    def Free(self):
        pass

    def Disconnect(self):
        pass

    def Abort(self, code=1):
        C.log({"ev": "mpi_abort", "proc": C.proc})
        os._exit(code or 1)

    def Spawn(self, command, args=None, maxprocs=1, info=INFO_NULL, root=0, errcodes=None):
        cid, local, remote = C.op("spawn", self._cid, command, list(args or []), maxprocs, dict(info.d))
        return Intercomm(cid, local, remote)

    def Merge(self, high=False):
        return self._mk(C.op("merge", self._cid, bool(high)))


class Intracomm(Comm):
    pass


class Intercomm(Comm):
    pass


class Win:
    def __init__(self, wid, sizes, paths, disp):
        self._wid, self._sizes, self._paths, self._disp = wid, sizes, paths, disp
        self._maps = {}

    @classmethod
    def Allocate_shared(cls, size, disp_unit=1, info=INFO_NULL, comm=None):
        wid, sizes, paths = comm._coll("win", (int(size), int(disp_unit)))
        return cls(wid, sizes, paths, disp_unit)

    def Shared_query(self, rank):
        if rank not in self._maps:
            n = self._sizes[rank]
            if n == 0:
                self._maps[rank] = real_buffer.frombuffer(bytearray(0))
            else:
                fd = os.open(self._paths[rank], os.O_RDWR)
                mm = mmap.mmap(fd, n)
                os.close(fd)
                self._maps[rank] = real_buffer.frombuffer(mm)
        return self._maps[rank], self._disp

    def Lock(self, rank, lock_type=LOCK_EXCLUSIVE, assertion=0):
        C.op("lock", self._wid, rank, lock_type)

    def Unlock(self, rank):
        C.op("unlock", self._wid, rank)

    def Lock_all(self, assertion=0):
        C.op("lock", self._wid, -1, LOCK_SHARED)

    def Unlock_all(self):
        C.op("unlock", self._wid, -1)

    def Sync(self):
        pass

    Flush = Flush_all = lambda self, *a: None

    def Fence(self, assertion=0):
        C.op("winfence", self._wid)

    def Free(self):
        C.op("winfree", self._wid)


COMM_NULL = Comm(None, [])
COMM_SELF = Intracomm("self%d" % C.proc, [C.proc])
COMM_WORLD = Intracomm(C.cfg["world"]["cid"], list(C.cfg["world"]["procs"]))
GROUP_EMPTY = Group([])
