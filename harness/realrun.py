"""Executes programs on a real backend (one process per batch); events go to the file VLOG.

usage: realrun.py BACKEND PROGS.json CPUS   (VLOG in the environment)
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sim"))


def expected(ops):
    """Calls of the program that must run: those none of whose inputs fails."""
    bad, exp = set(), set()

    def refs(a):
        if a[0] == "r":
            return {a[1]}
        if a[0] in ("c", "h"):
            return set()
        return set().union(*[refs(x) for x in a[1]]) if a[1] else set()

    for op in ops:
        if op["o"] in ("sub", "call"):
            ins = set()
            for a in op["a"]:
                ins |= refs(a)
            for _, a in op["kw"]:
                ins |= refs(a)
            if ins & bad:
                bad |= set(op["rs"])
                continue
            exp.add(op["t"])
            if op["b"] == "raise":
                bad |= set(op["rs"])
    return exp


def main():
    backend, progs, cpus = sys.argv[1], json.load(open(sys.argv[2])), int(sys.argv[3])
    if os.environ.get("SIM_MEM"):
        import paths

        sys.meta_path.insert(0, paths.MemFinder(os.environ["SIM_MEM"]))
    import ulog
    import udriver

    path = os.environ["VLOG"]
    cur = {"off": 0, "ops": []}

    def settle():
        want = expected(cur["ops"])
        t0 = time.time()
        while time.time() - t0 < 40:
            seen = set()
            with open(path) as f:
                f.seek(cur["off"])
                for line in f:
                    if line.endswith("\n"):
                        ev = json.loads(line)
                        if ev.get("e") in ("end", "fail"):
                            seen.add(ev["t"])
            if want <= seen:
                break
            time.sleep(0.01)

    ulog.settle = settle
    udriver.ulog.settle = settle
    udriver.configure({"Backend": backend, "CpuCount": cpus})
    import unidist

    unidist.init()
    for i, p in enumerate(progs):
        cur["ops"] = p["ops"]
        cur["off"] = os.path.getsize(path) if os.path.exists(path) else 0
        ulog.log(e="newprog", k=i)
        ulog.log(e="init")
        udriver.Interp.K = i
        it = udriver.Interp(0)
        it.run(p["ops"])
        ulog.log(e="done")
        it.refs = it.actors = None
        del it
    ulog.log(e="alldone")


if __name__ == "__main__":
    main()
