"""Event log used by generated programs: simulator log, or a shared append-only file on real backends."""
import fcntl
import json
import os
import sys


def _sim():
    m = sys.modules.get("simclient")
    return m.C if m is not None else None


def proc():
    c = _sim()
    return c.proc if c is not None else os.getpid()


def log(**ev):
    c = _sim()
    if c is not None:
        ev["p"] = c.proc
        c.log(ev)
        return
    path = os.environ.get("VLOG")
    if path:
        ev["p"] = os.getpid()
        with open(path, "a") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            f.write(json.dumps(ev) + "\n")
            f.flush()


def settle():
    c = _sim()
    if c is not None:
        c.op("settle")


def scan(markers):
    c = _sim()
    if c is not None:
        return c.op("scan", markers)
    return {}


def collect():
    """Cyclic garbage collection, which is off in the simulator between such points."""
    m = sys.modules.get("simclient")
    if m is not None:
        m.collect()
