"""Rank-side half of the deterministic MPI simulator.

Every interaction of a rank with the outside world (messages, sleeps, locks, event-loop idling) is an operation that is
posted to the coordinator and parks the calling thread until the coordinator grants it.  `running` counts the
threads of this rank that are not parked; the coordinator only acts on a rank when that count is zero, so exactly
one thread of the whole system runs between two operations and every run is a deterministic function of the schedule.
"""
import asyncio
import gc
import os
import pickle
import queue
import random
import selectors
import socket as _socket
import struct
import sys
import threading
import time as _time
import weakref

_real_sleep = _time.sleep
_HDR = struct.Struct("!I")
C = None  # the client of this process
real_buffer = None  # the real mpi4py.MPI.memory type (set by the pool process before forking)


def collect():
    """Automatic cyclic garbage collection is off (it could run in the reader thread); it runs here, at chosen points."""
    if _gc_on[0]:
        gc.collect()


_gc_on = [True]  # the switch as seen by the code under test


class SimAbort(BaseException):
    """Raised inside a rank when the coordinator goes away."""


class Client:
    def __init__(self, sock, proc, cfg):
        self.sock = sock
        self.proc = proc
        self.cfg = cfg
        self.lock = threading.RLock()
        self.running = 1
        self.waiters = {}
        self.now = cfg.get("clock0", 1000.0)
        self.requests = weakref.WeakValueDictionary()
        self.tls = threading.local()
        self.next_tid = 0
        self.finalized = False
        self.initialized = False
        self.rng = random.Random(cfg.get("seed", 0) * 7919 + proc)
        self.preempt_p = cfg.get("preempt", 0.0)
        self.gc_p = 0.02
        self.gcrng = random.Random(cfg.get("seed", 0) * 31 + proc)
        self.in_op = threading.local()
        self.reader = threading.Thread(target=self._read_loop, daemon=True)
        self.reader.start()

    # -- wire
    def _send(self, msg):
        data = pickle.dumps(msg, protocol=5)
        with self.lock:
            try:
                self.sock.sendall(_HDR.pack(len(data)) + data)
            except OSError:
                os._exit(77)

    def _recv_exact(self, n):
        buf = bytearray()
        while len(buf) < n:
            chunk = self.sock.recv(n - len(buf))
            if not chunk:
                return None
            buf += chunk
        return bytes(buf)

    def _read_loop(self):
        while True:
            hdr = self._recv_exact(4)
            if hdr is None:
                os._exit(78)
            msg = pickle.loads(self._recv_exact(_HDR.unpack(hdr)[0]))
            if msg[0] == "res":
                _, tid, now, ok, value = msg
                with self.lock:
                    self.now = now
                    self.running += 1
                    q = self.waiters[tid]
                q.put((ok, value))
            elif msg[0] == "fetch":
                req = self.requests.get(msg[1])
                data = None
                if req is not None:
                    data = bytes(req._buf)
                del req
                self._send(("data", msg[1], data))
            elif msg[0] == "scan":
                self._send(("scanned", cfg_scan(msg[1]) if isinstance(msg[1], dict) else heap_scan(msg[1])))

    def tid(self):
        t = getattr(self.tls, "tid", None)
        if t is None:
            with self.lock:
                t = self.tls.tid = self.next_tid
                self.next_tid += 1
                self.waiters[t] = queue.SimpleQueue()
        return t

    def op(self, name, *args):
        t = self.tid()
        if name != "idle" and self.gcrng.random() < self.gc_p:
            collect()
        with self.lock:
            self.running -= 1
            self._send(("op", t, name, args, self.running))
        ok, value = self.waiters[t].get()
        if not ok:
            raise value
        return value

    def log(self, ev):
        self._send(("log", ev))

    def cfg_host(self):
        hosts = self.cfg["hosts"]
        if self.cfg.get("host_cycle"):
            return hosts[self.proc % len(hosts)]
        return hosts[self.proc] if self.proc < len(hosts) else hosts[-1]

    # -- thread accounting used by the event loop
    def thread_begin(self):
        with self.lock:
            self.running += 1

    def thread_end(self):
        with self.lock:
            self.running -= 1
            self._send(("quiet", self.running))

    def local_wake(self, tid):
        """Another thread of this rank wakes thread `tid`, parked in an "idle" operation."""
        with self.lock:
            self.running += 1
            self._send(("cancel", tid))
            self.waiters[tid].put((True, None))


def _reachable():
    """Container objects a collection would not free (computed without running finalizers: this is the reader thread)."""
    objs = gc.get_objects()
    if not _gc_on[0]:  # the code under test switched the collector off
        return objs
    index = {id(o): i for i, o in enumerate(objs)}
    cnt = [0] * len(objs)
    for i, o in enumerate(objs):
        cnt[i] += sys.getrefcount(o) - 3
        for r in gc.get_referents(o):
            j = index.get(id(r))
            if j is not None:
                cnt[j] -= 1
    todo = [i for i, n in enumerate(cnt) if n > 0]
    live = set(todo)
    while todo:
        for r in gc.get_referents(objs[todo.pop()]):
            j = index.get(id(r))
            if j is not None and j not in live:
                live.add(j)
                todo.append(j)
    return [objs[i] for i in live]


def cfg_scan(q):
    """Effective settings and some environment variables of this process."""
    import os

    import unidist.config as c

    v = {}
    for n in q["names"]:
        try:
            v[n] = repr(getattr(c, n).get())
        except Exception as e:
            v[n] = "raises %s" % type(e).__name__
    return {"v": v, "e": {k: x for k, x in os.environ.items() if k.startswith("UV_")}}


def heap_scan(markers):
    """Numbers h of all payloads ("%07d|" % h repeated) held anywhere in the Python heap of this process."""
    import re

    import numpy as np

    rx = re.compile(rb"(\d{7})\|(?:\1\|)+")
    found = set()
    seen = set()

    def look(o):
        t = type(o)
        if t is str:
            if len(o) < 16 or "|" not in o:
                return
            b = o.encode("utf8", "replace")
        elif t in (bytes, bytearray):
            b = o
        elif t is memoryview or t.__name__ in ("memory", "buffer", "PickleBuffer"):
            try:
                m = memoryview(o)
                if m.nbytes > 500000:  # the window itself: bytes of recycled objects are not "held"
                    return
                b = bytes(m)
            except (ValueError, TypeError, BufferError):
                return
        elif isinstance(o, np.ndarray) and o.dtype != object:
            try:
                b = o.tobytes()
            except Exception:
                return
        else:
            return
        if len(b) < 16 or id(o) in seen:
            return
        seen.add(id(o))
        hs = {int(m.group(1)) for m in rx.finditer(b)}
        found.update(hs)

    for c in _reachable():
        if c is seen or c is found:
            continue
        try:
            for o in gc.get_referents(c):
                look(o)
        except Exception:
            pass
    return sorted(found)


class SimSelector(selectors.SelectSelector):
    def __init__(self):
        super().__init__()
        self.woken = False
        self.parked = None

    def select(self, timeout=None):
        c = C
        with c.lock:
            if self.woken:
                self.woken = False
                return []
            if timeout is not None and timeout <= 0:
                return []
            self.parked = c.tid()
        c.op("idle", None if timeout is None else c.now + timeout)
        with c.lock:
            self.parked = None
            self.woken = False
        return []

    def wake(self):
        c = C
        with c.lock:
            if self.woken:
                return
            self.woken = True
            if self.parked is not None:
                tid, self.parked = self.parked, None
                c.local_wake(tid)


class SimEventLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._sim_selector = SimSelector()
        super().__init__(self._sim_selector)
        self._sim_jobs = queue.SimpleQueue()
        self._sim_idle_threads = 0

    def time(self):
        return C.now

    def _write_to_self(self):
        self._sim_selector.wake()

    def _sim_worker(self):
        while True:
            job = self._sim_jobs.get()
            if job is None:
                return
            fut, func, args = job
            try:
                C.op("tstart")
                try:
                    res, exc = func(*args), None
                except BaseException as e:  # noqa: B902
                    res, exc = None, e

                def done(fut=fut, res=res, exc=exc):
                    if not fut.cancelled():
                        if exc is not None:
                            fut.set_exception(exc)
                        else:
                            fut.set_result(res)

                try:
                    self.call_soon_threadsafe(done)
                except RuntimeError:
                    pass
            finally:
                with C.lock:
                    self._sim_idle_threads += 1
                C.thread_end()

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        with C.lock:
            if self._sim_idle_threads > 0:
                self._sim_idle_threads -= 1
            else:
                threading.Thread(target=self._sim_worker, daemon=True).start()
        C.thread_begin()
        self._sim_jobs.put((fut, func, args))
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return None


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        return SimEventLoop()


def sim_sleep(dt):
    C.op("sleep", float(dt))


def install(sock, proc, cfg):
    """Turn the current (freshly forked) process into a simulated rank."""
    global C
    C = Client(sock, proc, cfg)
    _time.sleep = sim_sleep
    _time.perf_counter = lambda: C.now
    _time.monotonic = lambda: C.now
    _time.time = lambda: C.now + 1.7e9
    host = C.cfg_host()
    _socket.gethostname = lambda: "host-" + host
    _socket.gethostbyname = lambda name: name[5:] if name.startswith("host-") else "127.0.0.1"
    asyncio.set_event_loop_policy(SimPolicy())
    gc.disable()
    gc.disable = lambda: _gc_on.__setitem__(0, False)
    gc.enable = lambda: _gc_on.__setitem__(0, True)
    gc.isenabled = lambda: _gc_on[0]
    if C.preempt_p > 0:
        _install_preemption(cfg)
    if cfg.get("gcp"):
        _install_gc(cfg)
    return C


def _install_gc(cfg):
    """Collect garbage at random function entries of the code under test."""
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "simgc")
    p = cfg["gcp"]
    rng = random.Random(cfg.get("seed", 0) * 17 + C.proc)
    busy = []

    def on_start(code, off):
        if "/unidist/" not in code.co_filename:
            return mon.DISABLE
        if not busy and not C.finalized and rng.random() < p:
            busy.append(1)
            try:
                collect()
            finally:
                busy.pop()

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def _install_preemption(cfg):
    """Yield to the scheduler between bytecodes of the shared-memory code."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "simpreempt")
    pats = tuple(cfg.get("preempt_files", ("shared_object_store.py",)))
    p = C.preempt_p
    rng = C.rng
    busy = threading.local()

    def on_start(code, off):
        if code.co_filename.endswith(pats):
            mon.set_local_events(tool, code, mon.events.INSTRUCTION)
        return mon.DISABLE

    def on_instr(code, off):
        if getattr(busy, "v", False) or C.finalized:
            return
        if rng.random() < p:
            busy.v = True
            try:
                C.op("yield")
            finally:
                busy.v = False

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.register_callback(tool, mon.events.INSTRUCTION, on_instr)
    mon.set_events(tool, mon.events.PY_START)


def log(**ev):
    """Called from driver programs and user functions: append an event to the global history."""
    C.log(ev)
