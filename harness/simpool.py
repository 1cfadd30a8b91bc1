"""Pool of simulator processes."""
import os
import pickle
import queue
import shutil
import struct
import subprocess
import tempfile
import threading

import paths

_HDR = struct.Struct("!I")


class Pool:
    def __init__(self, n=None, pandas=False):
        self.n = n or max(2, min(8, os.cpu_count() or 4))
        self.tmp = tempfile.mkdtemp(prefix="uverif-")
        mem = paths.build_memory()
        self.env = paths.clean_env(
            {"SIM_MEM": mem, "SIM_PYCACHE": os.path.join(self.tmp, "pyc")}
        )
        self.env.pop("PYTHONDONTWRITEBYTECODE")
        if pandas:
            self.env["SIM_PANDAS"] = "1"
        self.jobs = queue.Queue()
        self.threads = []
        self.procs = []
        self.stop = False
        for _ in range(self.n):
            t = threading.Thread(target=self._loop, daemon=True)
            t.start()
            self.threads.append(t)

    def _start(self):
        p = subprocess.Popen(
            [paths.PY, os.path.join(paths.SIM, "zygote.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get("SIM_DEBUG") else None,
            env=self.env,
            cwd=self.tmp,
            start_new_session=True,
        )
        self.procs.append(p)
        return p

    def _loop(self):
        p = None
        while True:
            job = self.jobs.get()
            if job is None:
                break
            payload, cb = job
            if self.stop:
                cb(None)
                continue
            res = None
            for attempt in range(2):
                if p is None or p.poll() is not None:
                    p = self._start()
                try:
                    data = pickle.dumps(payload)
                    p.stdin.write(_HDR.pack(len(data)) + data)
                    p.stdin.flush()
                    hdr = p.stdout.read(4)
                    if len(hdr) < 4:
                        raise EOFError
                    res = pickle.loads(p.stdout.read(_HDR.unpack(hdr)[0]))
                    break
                except (OSError, EOFError):
                    p.kill()
                    p = None
            if res is None:
                res = {"status": "infra", "detail": "simulator process died", "log": [], "steps": 0, "exits": {}, "outputs": {}}
            cb(res)

    def map(self, jobs, deadline=None):
        """Run jobs (list of dict(cfg, main)); yields (index, result) in completion order."""
        import time

        done = queue.Queue()
        n = 0
        for i, j in enumerate(jobs):
            j["cfg"].setdefault("tmp", self.tmp)
            self.jobs.put((j, lambda r, i=i: done.put((i, r))))
            n += 1
        for _ in range(n):
            i, r = done.get()
            yield i, r
            if deadline is not None and time.time() > deadline:
                self.stop = True
        self.stop = False

    def close(self):
        self.stop = True
        for _ in self.threads:
            self.jobs.put(None)
        for p in self.procs:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        for p in self.procs:
            p.wait()
        shutil.rmtree(self.tmp, ignore_errors=True)
