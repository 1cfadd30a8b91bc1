"""Coordinator of the deterministic MPI simulator.

One `Sim` object executes one run: it forks the initial rank(s), serves the operations they post, and decides the
interleaving (seeded).  It holds no knowledge of unidist; it implements MPI semantics (ordered channels per
source/destination/communicator, eager/rendezvous sends, probes, collectives, spawn/merge, shared windows, window locks)
plus virtual time.
"""
import atexit
import io
import os
import pickle
import random
import resource
import selectors
import signal
import socket
import struct
import sys
import tempfile
import time
import traceback

_HDR = struct.Struct("!I")
ANY = -1
_real_time = time.time


class Proc:
    __slots__ = ("id", "pid", "sock", "buf", "running", "ops", "alive", "exit", "out", "last_fail", "finalized", "prio", "role", "seen")

    def __init__(self, id, pid, sock, out, role):
        self.id, self.pid, self.sock, self.out, self.role = id, pid, sock, out, role
        self.buf = bytearray()
        self.running = 1
        self.ops = {}
        self.alive = True
        self.exit = None
        self.last_fail = set()
        self.finalized = False
        self.prio = 0
        self.seen = _real_time()


class Msg:
    __slots__ = ("src", "tag", "n", "data", "req", "sender", "seq", "sproc", "hold")

    def __init__(self, src, tag, n, data, req, sender, seq, sproc):
        self.hold = 0
        self.src, self.tag, self.n, self.data, self.req, self.sender, self.seq, self.sproc = src, tag, n, data, req, sender, seq, sproc


class Op:
    __slots__ = ("proc", "tid", "name", "args", "posted", "seq", "state", "value", "t0", "poll")

    def __init__(self, proc, tid, name, args, seq, t0):
        self.proc, self.tid, self.name, self.args, self.seq, self.t0 = proc, tid, name, args, seq, t0
        self.state = "new"
        self.value = None
        self.poll = False


class Sim:
    """cfg: see `default_cfg`."""

    def __init__(self, cfg, main):
        self.cfg = cfg
        self.main = main  # main(proc_id, argv) executed in every initial rank
        self.rng = random.Random(cfg.get("seed", 0))
        self.procs = {}
        self.comms = {}
        self.nextcid = 0
        self.now = cfg.get("clock0", 1000.0)
        self.tick = cfg.get("tick", 0.0)
        self.chan = {}
        self.irecvs = []
        self.reqs = {}
        self.coll = {}
        self.merges = {}
        self.groups = {}
        self.wins = {}
        self.locks = {}
        self.log = []
        self.seq = 0
        self.status = None
        self.detail = None
        self.steps = 0
        self.futile = 0
        self.sleeps = 0
        self.quiet_rounds = 0
        self.scans = {}
        self.sel = selectors.DefaultSelector()
        self.tmp = tempfile.mkdtemp(prefix="usim-", dir=cfg.get("tmp"))
        self.strategy = cfg.get("strategy", "random")
        self.cur = None
        self.change_points = set()
        self.fetched = {}
        self.starved = None
        self.slow = cfg.get("slow", 0)
        self.slow_pair = None
        self.lazy = cfg.get("lazy", False)
        self.held = []
        self.choices = []
        self.trace = cfg.get("trace", False)
        self.undelivered = 0

    # ------------------------------------------------------------------ processes
    def host_of(self, proc):
        hosts = self.cfg["hosts"]
        if self.cfg.get("host_cycle"):
            return hosts[proc % len(hosts)]
        return hosts[proc] if proc < len(hosts) else hosts[-1]

    def fork(self, role, world, parent, fn):
        pid_ = len(self.procs)
        a, b = socket.socketpair()
        out = os.path.join(self.tmp, "out%d" % pid_)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                a.close()
                for p in self.procs.values():
                    p.sock.close()
                self.sel.close()
                fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.close(fd)
                dn = os.open("/dev/null", os.O_RDONLY)
                os.dup2(dn, 0)
                os.close(dn)
                sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0, closefd=False), write_through=True)
                sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", 0, closefd=False), write_through=True)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                atexit._clear()
                cfg = dict(self.cfg)
                cfg["world"] = world
                cfg["parent"] = parent
                code = _rank_main(b, pid_, cfg, fn)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        b.close()
        p = Proc(pid_, pid, a, out, role)
        p.prio = self.rng.random()
        self.procs[pid_] = p
        self.sel.register(a, selectors.EVENT_READ, p)
        return p

    def new_comm(self, procs, remote=None):
        self.nextcid += 1
        cid = self.nextcid
        self.comms[cid] = (tuple(procs), tuple(remote) if remote else None)
        return cid

    # ------------------------------------------------------------------ main loop
    def run(self):
        if not self.cfg.get("cwd"):
            return self.run_()
        # a directory of its own for the files the processes write
        import shutil
        import tempfile

        self.cfg["cwd"] = tempfile.mkdtemp(prefix="uvcwd-")
        try:
            return self.run_()
        finally:
            shutil.rmtree(self.cfg["cwd"], ignore_errors=True)

    def run_(self):
        n = self.cfg.get("world_size", 1)
        cid = self.new_comm(range(n))
        for i in range(n):
            self.fork("root" if i == 0 else "spmd", {"cid": cid, "procs": list(range(n))}, None, self.main)
        npct = self.cfg.get("pct_points", 3)
        span = self.cfg.get("pct_span", 600)
        self.change_points = {self.rng.randrange(span) for _ in range(npct)}
        t_end = _real_time() + self.cfg.get("wall", 120)
        try:
            while self.status is None:
                if not self.settle(t_end):
                    break
                self.step()
        finally:
            self.cleanup()
        return self.result()

    def settle(self, t_end):
        """Wait until no rank is running."""
        while True:
            busy = [p for p in self.procs.values() if p.alive and p.running > 0]
            if not busy:
                if not any(p.alive for p in self.procs.values()):
                    self.status = "done"
                    return False
                return True
            ev = self.sel.select(1.0)
            for key, _ in ev:
                self.read(key.data)
            if not ev:
                now = _real_time()
                for p in busy:
                    if now - p.seen > self.cfg.get("spin_wall", 45):
                        cpu = _cpu_time(p.pid)
                        self.status = "spin" if cpu > 0.4 * self.cfg.get("spin_wall", 45) else "stuck"
                        self.detail = "rank %d runs without any MPI/time operation for %ds (cpu %.0fs)" % (
                            p.id,
                            now - p.seen,
                            cpu,
                        )
                        return False
                if now > t_end:
                    self.status = "wall"
                    self.detail = "wall clock budget exhausted"
                    return False

    def read(self, p):
        try:
            data = p.sock.recv(1 << 20)
        except OSError:
            data = b""
        if not data:
            self.reap(p)
            return
        p.seen = _real_time()
        p.buf += data
        while len(p.buf) >= 4:
            (n,) = _HDR.unpack_from(p.buf)
            if len(p.buf) < 4 + n:
                break
            msg = pickle.loads(bytes(p.buf[4 : 4 + n]))
            del p.buf[: 4 + n]
            self.handle(p, msg)

    def handle(self, p, msg):
        k = msg[0]
        if k == "op":
            _, tid, name, args, running = msg
            self.seq += 1
            op = Op(p, tid, name, args, self.seq, self.now)
            # a pause between two polls, not one of the program
            op.poll = tid in p.last_fail and (name != "sleep" or args[0] < 0.2)
            if name != "sleep" or args[0] >= 0.2:
                p.last_fail.discard(tid)
            p.ops[tid] = op
            p.running = running
        elif k == "quiet":
            p.running = msg[1]
        elif k == "cancel":
            p.ops.pop(msg[1], None)
        elif k == "log":
            ev = msg[1]
            ev.setdefault("proc", p.id)
            self.log.append(ev)
        elif k == "data":
            self.fetched[msg[1]] = msg[2]
        elif k == "scanned":
            self.scans[p.id] = msg[1]

    def reap(self, p):
        if not p.alive:
            return
        p.alive = False
        p.running = 0
        self.sel.unregister(p.sock)
        p.sock.close()
        p.ops.clear()
        try:
            _, st = os.waitpid(p.pid, 0)
            p.exit = os.waitstatus_to_exitcode(st)
        except ChildProcessError:
            p.exit = -99
        self.log.append({"ev": "exit", "proc": p.id, "code": p.exit, "fin": p.finalized})
        for k in [k for k, holder in self.locks.items() if holder[0] is p]:
            del self.locks[k]

    def cleanup(self):
        for p in self.procs.values():
            if p.alive:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.waitpid(p.pid, 0)
                except OSError:
                    pass
                p.sock.close()
        self.sel.close()
        self.outputs = {}
        for p in self.procs.values():
            try:
                with open(p.out, errors="replace") as f:
                    t = f.read()
                if t:
                    self.outputs[p.id] = t[-4000:]
            except OSError:
                pass
        for f in os.listdir(self.tmp):
            os.unlink(os.path.join(self.tmp, f))
        os.rmdir(self.tmp)

    def result(self):
        left = sum(len(c) for c in self.chan.values())
        return {
            "status": self.status,
            "detail": self.detail,
            "log": self.log,
            "steps": self.steps,
            "exits": {p.id: (p.exit if not p.alive else None) for p in self.procs.values()},
            "finalized": {p.id: p.finalized for p in self.procs.values()},
            "outputs": self.outputs,
            "undelivered": left,
            "hosts": {p.id: self.host_of(p.id) for p in self.procs.values()},
            "pending": self.pending_desc if hasattr(self, "pending_desc") else None,
            "clock": self.now,
        }

    # ------------------------------------------------------------------ scheduling
    def grant(self, op, value=None, ok=True):
        p = op.proc
        del p.ops[op.tid]
        p.running += 1
        p.seen = _real_time()
        data = pickle.dumps(("res", op.tid, self.now, ok, value), protocol=5)
        try:
            p.sock.sendall(_HDR.pack(len(data)) + data)
        except OSError:
            self.reap(p)

    def step(self):
        self.steps += 1
        if self.steps > self.cfg.get("max_steps", 60000):
            self.status = "steps"
            self.detail = "step budget exhausted"
            return
        high, low, settle = [], [], []
        for p in self.procs.values():
            if not p.alive:
                continue
            for tid in sorted(p.ops):
                op = p.ops[tid]
                pr = self.enabled(op)
                if pr == 2:
                    high.append(op)
                elif pr == 1:
                    low.append(op)
                elif pr == 3:
                    settle.append(op)
        if self.lazy and len(high) > 1:
            # long sleeps end when nothing else happens
            high = [o for o in high if o.name != "sleep" or o.args[0] < 5] or high
        if settle and not high and not self.held:
            self.quiet_rounds += 1
            # a rank may test every unfinished request before it looks for messages again
            if not low or self.quiet_rounds > (4 + self.open_reqs()) * (1 + len(low)):
                self.quiet_rounds = 0
                self.futile = 0
                self.execute(settle[0])
                return
        elif high:
            self.quiet_rounds = 0
        if self.held and not high:
            # what was delayed on a slow link arrives
            for m in self.held:
                m.hold = 0
            self.held = []
            return
        if not high and not low:
            self.status = "deadlock"
            self.pending_desc = self.describe()
            self.detail = "no rank can make progress"
            return
        poll_p = self.cfg.get("poll_p", 0.02)
        if self.lazy and high and all(o.name == "sleep" and o.args[0] >= 5 for o in high):
            poll_p = 0.98
        if high and (not low or self.rng.random() > poll_p):
            op = self.choose(high)
            if op.name in ("sleep", "idle"):
                self.sleeps += 1
                if self.sleeps > self.cfg.get("max_sleeps", 400):
                    self.status = "livelock"
                    self.detail = "only sleeps for %d steps" % self.sleeps
                    self.pending_desc = self.describe()
                    return
            else:
                self.sleeps = 0
                if op.name not in ("rtest", "yield"):
                    self.futile = 0
        else:
            # oldest polling operation first: fair among pollers
            op = min(low, key=lambda o: o.seq)
            if not high:
                self.futile += 1
                if self.futile > (self.cfg.get("max_futile", 30) + self.open_reqs()) * (2 + 2 * len(low)):
                    self.status = "livelock"
                    self.detail = "ranks only poll, nothing can arrive"
                    self.pending_desc = self.describe()
                    return
        if self.tick:
            self.now += self.tick * self.rng.random()
        self.cur = op.proc.id
        self.execute(op)

    def open_reqs(self):
        return sum(1 for v in self.reqs.values() if v is None)

    def describe(self):
        out = []
        for p in self.procs.values():
            if p.alive:
                for op in p.ops.values():
                    a = [x if isinstance(x, (int, str, float, type(None), tuple)) else type(x).__name__ for x in op.args]
                    out.append("rank %d: %s%s" % (p.id, op.name, repr(a)[:160]))
        for (w, r), holder in self.locks.items():
            out.append("lock (%s, %s) is held by rank %d" % (w, r, holder[0].id))
        for (cid, d), msgs in self.chan.items():
            for m in msgs:
                out.append("undelivered %d->%s tag %d len %d" % (m.sproc, self.dst_proc(cid, d), m.tag, m.n))
        return out

    def choose(self, ops):
        if len(ops) == 1:
            return ops[0]
        s = self.strategy
        if s == "random":
            return self.rng.choice(ops)
        if s == "rtb":  # run to block
            if self.rng.random() < self.cfg.get("rtb_switch", 0.05):
                return self.rng.choice(ops)
            mine = [o for o in ops if o.proc.id == self.cur]
            return self.rng.choice(mine or ops)
        if s == "pct":
            if self.steps in self.change_points or any(self.steps - 1 == c for c in self.change_points):
                if self.cur is not None:
                    self.procs[self.cur].prio = self.rng.random() * 0.01
            best = max(o.proc.prio for o in ops)
            if self.rng.random() < 0.05:
                return self.rng.choice(ops)
            return self.rng.choice([o for o in ops if o.proc.prio == best])
        if s.startswith("starve"):
            if self.starved is None or self.steps % self.cfg.get("starve_len", 150) == 0:
                self.starved = self.rng.choice(sorted(self.procs))
            rest = [o for o in ops if o.proc.id != self.starved]
            return self.rng.choice(rest or ops)
        if s == "fifo":
            return min(ops, key=lambda o: o.seq)
        if s == "lifo":
            if self.rng.random() < 0.2:
                return self.rng.choice(ops)
            return max(ops, key=lambda o: o.seq)
        raise ValueError(s)

    # ------------------------------------------------------------------ semantics
    def dst_proc(self, cid, rank):
        if isinstance(cid, str):
            return int(cid[4:])
        procs, remote = self.comms[cid]
        return (remote or procs)[rank]

    def my_rank(self, cid, proc):
        if isinstance(cid, str):
            return 0
        return self.comms[cid][0].index(proc.id)

    def matches(self, cid, me, src, tag):
        """First matching message of every source (MPI non-overtaking order)."""
        seen = set()
        res = []
        for m in self.chan.get((cid, me), ()):
            if m.src in seen or (src != ANY and m.src != src):
                continue
            if tag != ANY and m.tag != tag:
                continue
            seen.add(m.src)
            if m.hold <= self.steps:
                res.append(m)
        return res

    def enabled(self, op):
        """0 blocked, 1 low priority (polling), 2 enabled."""
        n, a = op.name, op.args
        if op.state == "blocked":
            return 0
        if op.state == "ready":
            return 2
        if n in ("recv", "probe"):
            return 2 if self.matches(a[0], self.my_rank(a[0], op.proc), a[1], a[2]) else 0
        if n == "iprobe":
            return 2 if self.matches(a[0], self.my_rank(a[0], op.proc), a[1], a[2]) else 1
        if n == "rwait":
            return 2 if self.reqs[a[0]] is not None else 0
        if n == "rtest":
            return 2 if self.reqs[a[0]] is not None else 1
        if n == "sleep":
            return 1 if op.poll else 2
        if n == "idle":
            return 0 if a[0] is None else 2
        if n == "settle":
            return 3
        if n == "lock":
            return 2 if (a[0], a[1]) not in self.locks else 0
        if n == "coll":
            st = self.coll.setdefault(a[0], {})
            st[op.proc.id] = op
            procs = self.comms[a[0]][0] if not isinstance(a[0], str) else (op.proc.id,)
            if all(q in st for q in procs):
                self.finish_coll(a[0], procs, st)
                self.coll[a[0]] = {}
                return 2
            return 0
        if n == "merge":
            st = self.merges.setdefault(a[0], {})
            st[op.proc.id] = op
            procs, remote = self.comms[a[0]]
            allp = self.inter_groups[a[0]]
            if all(q in st for g in allp for q in g):
                lo, hi = [], []
                for g in allp:
                    (hi if st[g[0]].args[1] else lo).extend(g)
                cid = self.new_comm(lo + hi)
                for o in st.values():
                    o.state, o.value = "ready", (cid, lo + hi)
                self.merges[a[0]] = {}
                return 2
            return 0
        if n == "create_group":
            key = (a[0], a[1], a[2])
            st = self.groups.setdefault(key, {})
            st[op.proc.id] = op
            if all(q in st for q in a[1]):
                cid = self.new_comm(a[1])
                for o in st.values():
                    o.state, o.value = "ready", (cid, list(a[1]))
                self.groups[key] = {}
                return 2
            return 0
        if n == "finalize":
            for p in self.procs.values():
                if p.alive and not p.finalized and not any(o.name == "finalize" for o in p.ops.values()):
                    return 0
            return 2
        return 2

    def finish_coll(self, cid, procs, st):
        names = {o.args[1] for o in st.values()}
        ops = [st[q] for q in procs]
        if len(names) != 1:
            self.log.append({"ev": "mpi_error", "what": "mismatched collectives " + ",".join(sorted(names))})
            self.status = "mpi_error"
            self.detail = "mismatched collective operations %s" % sorted(names)
            for o in ops:
                o.state = "ready"
            return
        name = names.pop()
        vals = [o.args[2][0] if o.args[2] else None for o in ops]
        if name == "barrier":
            res = [None] * len(ops)
        elif name == "allgather":
            res = [vals] * len(ops)
        elif name == "dup":
            c = self.new_comm(procs)
            res = [(c, list(procs))] * len(ops)
        elif name == "create":
            sub = list(vals[0])
            c = self.new_comm(sub)
            res = [(c, sub) if o.proc.id in sub else None for o in ops]
        elif name in ("split_type", "split"):
            if name == "split_type":
                cols = [(v, 0) for v in vals]
            else:
                cols = vals
            made = {}
            res = []
            for i, o in enumerate(ops):
                col = cols[i][0]
                if col not in made:
                    members = sorted(
                        [(cols[j][1], j, procs[j]) for j in range(len(ops)) if cols[j][0] == col]
                    )
                    ps = [x[2] for x in members]
                    made[col] = (self.new_comm(ps), ps)
                res.append(made[col])
        elif name == "win":
            wid = len(self.wins) + 1
            paths = []
            sizes = []
            for i, (size, disp) in enumerate(vals):
                path = os.path.join(self.tmp, "win%d_%d" % (wid, i))
                if size:
                    with open(path, "wb") as f:
                        f.truncate(size)
                    if self.cfg.get("poison_win"):
                        pass
                paths.append(path)
                sizes.append(size)
            self.wins[wid] = tuple(procs)
            res = [(wid, sizes, paths)] * len(ops)
        else:
            raise RuntimeError(name)
        for o, r in zip(ops, res):
            o.state, o.value = "ready", r

    def post(self, op, cid, dest, tag, n, data, req, sender):
        self.seq += 1
        src = self.my_rank(cid, op.proc)
        m = Msg(src, tag, n, data, req, sender, self.seq, op.proc.id)
        if self.slow:
            ids = sorted(self.procs)
            if len(ids) > 2 and (self.slow_pair is None or self.rng.random() < 0.005):
                src = 0 if self.rng.random() < self.cfg.get("slow_root", 0.5) else self.rng.choice(ids)
                self.slow_pair = (src, self.rng.choice([i for i in ids if i != src]))
            if (op.proc.id, self.dst_proc(cid, dest)) == self.slow_pair:
                m.hold = self.steps + self.slow
                self.held.append(m)
        self.chan.setdefault((cid, dest), []).append(m)
        # posted receives
        for ir in list(self.irecvs):
            icid, me, s, t, rid = ir
            if icid == cid and me == dest and (s in (ANY, src)) and (t in (ANY, tag)):
                self.irecvs.remove(ir)
                self.reqs[rid] = (m.src, m.tag, self.take(cid, dest, m))
                break
        return m

    def take(self, cid, me, m):
        self.chan[(cid, me)].remove(m)
        data = m.data
        if data is None:
            data = self.fetch(m)
        if m.req is not None:
            self.reqs[m.req] = True
        if m.sender is not None:
            m.sender.state, m.sender.value = "ready", None
        return data

    def fetch(self, m):
        """Rendezvous: read the sender's buffer now."""
        p = self.procs[m.sproc]
        if not p.alive:
            self.log.append({"ev": "mpi_error", "what": "sender exited with a pending send"})
            return b"\xde" * m.n
        data = pickle.dumps(("fetch", m.req))
        p.sock.sendall(_HDR.pack(len(data)) + data)
        while m.req not in self.fetched and p.alive:
            self.sel.select(1.0)
            self.read(p)
        d = self.fetched.pop(m.req, None)
        if d is None or len(d) != m.n:
            # the request (and with it the buffer) was dropped while the transfer was pending
            self.log.append({"ev": "mpi_error", "what": "send buffer dropped while the send was pending"})
            return b"\xde" * m.n
        return d

    def scan(self, markers):
        """Which ranks still hold which marker bytes anywhere in their Python heap."""
        self.scans = {}
        data = pickle.dumps(("scan", markers))
        res = {}
        for p in self.procs.values():
            if p.alive:
                p.sock.sendall(_HDR.pack(len(data)) + data)
                while p.id not in self.scans and p.alive:
                    self.sel.select(1.0)
                    self.read(p)
                res[p.id] = self.scans.get(p.id)
        return res

    def execute(self, op):
        n, a = op.name, op.args
        p = op.proc
        if op.state == "ready":
            self.grant(op, op.value)
        elif n == "send":
            cid, dest, tag, data = a[:4]
            if len(data) <= self.cfg.get("eager", 4096) and len(a) < 5:
                self.post(op, cid, dest, tag, len(data), data, None, None)
                self.grant(op)
            else:
                op.state = "blocked"
                self.post(op, cid, dest, tag, len(data), data, None, op)
        elif n == "isend":
            cid, dest, tag, ln, data, rid = a
            if data is not None:
                self.post(op, cid, dest, tag, ln, data, None, None)
                self.reqs[rid] = True
                self.grant(op, True)
            else:
                self.reqs[rid] = None
                self.post(op, cid, dest, tag, ln, None, rid, None)
                self.grant(op, self.reqs[rid] is not None)
        elif n == "irecv":
            cid, src, tag, rid = a
            me = self.my_rank(cid, p)
            ms = self.matches(cid, me, src, tag)
            if ms:
                m = self.rng.choice(ms)
                self.reqs[rid] = (m.src, m.tag, self.take(cid, me, m))
            else:
                self.reqs[rid] = None
                self.irecvs.append((cid, me, src, tag, rid))
            self.grant(op)
        elif n in ("rtest", "rwait"):
            r = self.reqs[a[0]]
            if r is None:
                p.last_fail.add(op.tid)
            self.grant(op, r)
        elif n == "recv":
            cid, src, tag = a
            me = self.my_rank(cid, p)
            m = self.rng.choice(self.matches(cid, me, src, tag))
            if self.trace:
                self.choices.append((m.sproc, p.id, m.tag, m.n))
            data = self.take(cid, me, m)
            self.grant(op, (m.src, m.tag, data))
        elif n in ("iprobe", "probe"):
            cid, src, tag = a
            ms = self.matches(cid, self.my_rank(cid, p), src, tag)
            if not ms:
                p.last_fail.add(op.tid)
                self.grant(op, None)
            else:
                m = self.rng.choice(ms)
                self.grant(op, (m.src, m.tag, m.n))
        elif n == "sleep":
            self.now = max(self.now, op.t0 + a[0])
            self.grant(op)
        elif n == "idle":
            self.now = max(self.now, a[0])
            self.grant(op)
        elif n == "lock":
            self.locks[(a[0], a[1])] = (p, op.tid)
            self.grant(op)
        elif n == "unlock":
            if (a[0], a[1]) not in self.locks:
                self.log.append({"ev": "mpi_error", "what": "unlock without lock"})
            self.locks.pop((a[0], a[1]), None)
            self.grant(op)
        elif n == "finalize":
            p.finalized = True
            self.grant(op)
        elif n == "spawn":
            cid, cmd, args, maxprocs, info = a
            base = len(self.procs)
            new = list(range(base, base + maxprocs))
            local = [p.id] if isinstance(cid, str) else list(self.comms[cid][0])
            world = self.new_comm(new)
            inter = self.new_comm(local, new)
            if not hasattr(self, "inter_groups"):
                self.inter_groups = {}
            self.inter_groups[inter] = (tuple(local), tuple(new))
            self.log.append({"ev": "spawn", "proc": p.id, "args": args, "n": maxprocs, "info": info})
            # the operation must leave p.ops before forking (children do not use it)
            for q in new:
                self.fork(
                    "spawned",
                    {"cid": world, "procs": new},
                    {"cid": inter, "local": new, "remote": local},
                    ("spawn", cmd, args),
                )
            self.grant(op, (inter, local, new))
        elif n == "settle":
            self.grant(op)
        elif n == "scan":
            self.grant(op, self.scan(a[0]))
        elif n in ("yield", "tstart", "winfree", "winfence"):
            self.grant(op)
        else:
            raise RuntimeError("unknown op " + n)


def _cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def _rank_main(sock, pid, cfg, fn):
    import simclient

    simclient.install(sock, pid, cfg)
    import threading
    import types

    code = 0
    for k, v in cfg.get("env", {}).items():
        os.environ[k] = v
    if cfg.get("cwd"):
        os.chdir(cfg["cwd"])
    try:
        if isinstance(fn, tuple):
            _, cmd, args = fn
            i = args.index("-c")
            sys.argv = ["-c"] + list(args[i + 2 :])
            m = types.ModuleType("__main__")
            sys.modules["__main__"] = m
            exec(compile(args[i + 1], "<string>", "exec"), m.__dict__)
        else:
            fn(pid, cfg)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        traceback.print_exc()
        code = 1
    try:
        threading._shutdown() if False else None
        atexit._run_exitfuncs()
    except BaseException:
        traceback.print_exc()
        code = code or 1
    sys.stdout.flush()
    sys.stderr.flush()
    return code
