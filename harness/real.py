"""Runs programs on the real backends and returns their histories."""
import json
import os
import shutil
import signal
import subprocess
import tempfile
import time

import paths
import prog as P

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_tcp_if_include="lo", OMPI_MCA_oob_tcp_if_include="lo",
              OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm="isolated")


def _batch(backend, progs, cpus, prog_timeout, start_timeout):
    """Execute progs in one process; returns (list of results for a prefix of progs, error text)."""
    tmp = tempfile.mkdtemp(prefix="uvr-", dir="/tmp")
    vlog = os.path.join(tmp, "log")
    open(vlog, "w").close()
    with open(os.path.join(tmp, "progs.json"), "w") as f:
        json.dump(progs, f)
    extra = {"VLOG": vlog, "PYTHONPATH": paths.REPO + ":" + paths.SIM + ":" + paths.HARNESS, "UNIDIST_BACKEND": backend,
             "UNIDIST_CPUS": str(cpus), "TMPDIR": tmp, "RAY_TMPDIR": tmp}
    if backend == "mpi":
        extra.update(MPIENV)
        extra["SIM_MEM"] = paths.build_memory()
    env = paths.clean_env(extra)
    cmd = [paths.PY, os.path.join(paths.HARNESS, "realrun.py"), backend, os.path.join(tmp, "progs.json"), str(cpus)]
    err = open(os.path.join(tmp, "err"), "wb")
    p = subprocess.Popen(cmd, env=env, cwd=tmp, stdin=subprocess.DEVNULL, stdout=err, stderr=subprocess.STDOUT, start_new_session=True)
    pos, logs, last, alld = 0, [], time.time(), False
    buf = ""
    try:
        while True:
            with open(vlog) as f:
                f.seek(pos)
                data = f.read()
                pos = f.tell()
            buf += data
            *lines, buf = buf.split("\n")
            for line in lines:
                ev = json.loads(line)
                if ev["e"] == "newprog":
                    logs.append([])
                    last = time.time()
                elif ev["e"] == "alldone":
                    alld = True
                elif logs and ev.get("K", len(logs) - 1) == len(logs) - 1:
                    logs[-1].append(ev)
            if alld:
                break
            if p.poll() is not None and not lines:
                break
            if time.time() - last > (prog_timeout if logs else start_timeout):
                break
            time.sleep(0.02)
        t0 = time.time()
        while p.poll() is None and alld and time.time() - t0 < 30:
            time.sleep(0.05)
    finally:
        rc = p.poll()
        _kill(p, tmp)
        err.close()
        text = open(os.path.join(tmp, "err"), errors="replace").read()[-2000:]
        shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for i, lg in enumerate(logs):
        done = any(e["e"] == "done" for e in lg)
        out.append({"status": "done" if done else ("died" if rc is not None else "stuck"), "log": lg})
    return out, text


def _kill(p, tmp):
    """End the whole process tree of a batch (found by its private temporary directory)."""
    for _ in range(3):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        mark = tmp.encode()
        for pid in os.listdir("/proc"):
            if not pid.isdigit() or int(pid) == os.getpid():
                continue
            try:
                with open("/proc/%s/environ" % pid, "rb") as f:
                    if b"VLOG=" + mark in f.read():
                        os.kill(int(pid), signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.05)
    p.wait()


def run(backend, progs, cpus=3, prog_timeout=60, start_timeout=120):
    """Histories of all programs, restarting the backend after a program that did not finish."""
    res = []
    rest = list(progs)
    hangs = 0
    while rest:
        out, text = _batch(backend, rest, cpus, prog_timeout, start_timeout)
        if not out:
            return res, "start-up failed: " + text
        res += out
        rest = rest[len(out):]
        if out[-1]["status"] != "done":
            out[-1]["text"] = text
            hangs += 1
            if hangs >= 2:
                break
    return res, ""


def items(progs, results, cpus):
    return [{"prog": P.flatten(p, cpus), "ev": P.events(r)} for p, r in zip(progs, results)]
