"""Pool process: preloads third-party modules, then executes simulated runs one after another."""
import importlib
import os
import pickle
import struct
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
sys.path.insert(0, HERE)
import paths  # noqa: E402

_HDR = struct.Struct("!I")


def read_exact(f, n):
    b = b""
    while len(b) < n:
        c = os.read(f, n - len(b))
        if not c:
            os._exit(0)
        b += c
    return b


def write_all(f, data):
    data = _HDR.pack(len(data)) + data
    while data:
        n = os.write(f, data)
        data = data[n:]


def main():
    inp, outp = os.dup(0), os.dup(1)
    os.set_inheritable(inp, False)
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(2, 1)
    sys.pycache_prefix = os.environ["SIM_PYCACHE"]
    sys.dont_write_bytecode = False
    import mpi4py

    mpi4py.rc(initialize=False, finalize=False)
    from mpi4py import MPI

    buf = MPI.memory
    for k in [k for k in sys.modules if k == "mpi4py" or k.startswith("mpi4py.")]:
        del sys.modules[k]
    import asyncio  # noqa: F401
    import cloudpickle  # noqa: F401
    import msgpack  # noqa: F401
    import numpy  # noqa: F401
    import psutil  # noqa: F401
    import pandas  # noqa: F401
    import multiprocessing, concurrent.futures, logging, hashlib, secrets, weakref, itertools, packaging.version  # noqa
    sys.path.insert(0, paths.REPO)
    sys.path.insert(0, os.path.join(HERE, "fake"))
    sys.meta_path.insert(0, paths.MemFinder(os.environ["SIM_MEM"]))
    import simclient

    simclient.real_buffer = buf
    import coord

    import gc

    gc.collect()
    gc.freeze()
    while True:
        (n,) = _HDR.unpack(read_exact(inp, 4))
        job = pickle.loads(read_exact(inp, n))
        try:
            modname, fname = job["main"]
            mod = importlib.import_module(modname)
            sim = coord.Sim(job["cfg"], getattr(mod, fname))
            res = sim.run()
        except BaseException:
            res = {"status": "infra", "detail": traceback.format_exc(), "log": [], "steps": 0, "exits": {}, "outputs": {}}
        write_all(outp, pickle.dumps(res))


if __name__ == "__main__":
    main()
