"""Campaigns: generate programs (TLC), execute them in the simulator, validate the histories (TLC)."""
import random
import time

import gen
import prog as P
import simpool

STRATEGIES = ["random", "random", "rtb", "pct", "pct", "starve", "lifo", "fifo"]
HANGS = ("deadlock", "livelock", "spin")


def make_cfg(rng, **over):
    """A random run configuration."""
    W = over.get("W") or rng.choice(over.get("Ws", [1, 2, 2, 3, 3, 4]))
    shared = over.get("shared", rng.random() < 0.3)
    ucfg = {"Backend": "mpi", "CpuCount": W}
    cfg = {
        "seed": rng.randrange(1 << 30),
        "hosts": ["10.0.0.1"],
        "strategy": rng.choice(over.get("strategies", STRATEGIES)),
        "eager": rng.choice(over.get("eager", [64, 300, 1500, 4096, 100000])),
        "tick": rng.choice(over.get("tick", [0.0, 0.0, 0.002, 0.3])),
        "byvalue": rng.random() < 0.5,
        "rtb_switch": rng.choice([0.02, 0.1, 0.3]),
        "poll_p": rng.choice([0.0, 0.02, 0.1]),
        "gcp": rng.choice([0.0, 0.0, 0.01, 0.05]),
    }
    if rng.random() < over.get("thr_p", 0.6):
        ucfg["MpiPickleThreshold"] = rng.choice([64, 1000, 4096])
    if shared:
        ucfg["MpiSharedObjectStore"] = True
        ucfg["MpiSharedObjectStoreThreshold"] = rng.choice([20, 100, 1000, 4096])
        ucfg["MpiSharedObjectStoreMemory"] = over.get("shm", 4 << 20)
        ucfg["MpiSharedServiceMemory"] = over.get("shs", 1 << 16)
        if over.get("preempt"):
            cfg["preempt"] = rng.choice(over["preempt"])
        if rng.random() < over.get("hosts2", 0.0) and W >= 2:
            cfg["hosts"] = ["10.0.0.1", "10.0.0.2"]
            cfg["host_cycle"] = True
            ucfg["MpiHosts"] = "10.0.0.1,10.0.0.2"
    if rng.random() < over.get("slow_p", 0.2):
        cfg["slow"] = rng.choice([40, 150, 400])
    if rng.random() < 0.15:
        cfg["blocksize"] = rng.choice([64, 333, 1000, 4096])
    if rng.random() < over.get("spmd", 0.12):
        # started with mpiexec -n N instead of spawning the workers
        ucfg["MpiSpawn"] = False
        cfg["world_size"] = W + 1 + (len(cfg["hosts"]) if shared else 1)
    ucfg.update(over.get("ucfg", {}))
    cfg.update(over.get("cfg", {}))
    cfg["ucfg"] = ucfg
    cfg["W"] = W
    return cfg


def tail_ops(rng):
    """How the controller program ends."""
    x = rng.random()
    if x < 0.6:
        return [{"o": "settle"}, {"o": "shutdown"}]
    if x < 0.75:
        return [{"o": "settle"}, {"o": "shutdown"}, {"o": "shutdown"}]
    return [{"o": "settle"}]


def run(pool, jobs, deadline=None, validate=True, batch=150, on_result=None):
    """jobs: list of dict(prog, cfg, place?, noworker?).  Returns list of records (job, res, bad)."""
    sims = []
    for j in jobs:
        cfg = dict(j["cfg"])
        cfg["prog"] = j["prog"]
        sims.append({"main": ("udriver", "main"), "cfg": cfg})
    recs = []
    pend = []
    states = [0, 0]

    def flush():
        if not pend:
            return
        if validate:
            bad, st = P.validate([x["item"] for x in pend])
            states[0] += st[0]
            states[1] += st[1]
        else:
            bad = [[] for _ in pend]
        for x, b in zip(pend, bad):
            x["bad"] = b
            recs.append(x)
        pend.clear()

    for i, res in pool.map(sims, deadline=deadline):
        if res is None:
            continue
        j = jobs[i]
        item = {"prog": P.flatten(j["prog"], j["cfg"]["W"], j.get("place", False), j.get("noworker", False)), "ev": P.events(res)}
        pend.append({"job": j, "res": res, "item": item})
        if len(pend) >= batch:
            flush()
    flush()
    return recs, states


def make_jobs(pf, nprog, scheds, seed, tail=None, place=False, noworker=False, **over):
    rng = random.Random(seed)
    progs = gen.generate(pf, nprog, seed)
    jobs = []
    for p in progs:
        for _ in range(scheds):
            ops = p["ops"]
            if over.get("hold"):
                ops = [dict(op, hold=1) if op["o"] in ("get", "call") and rng.random() < over["hold"] else op for op in ops]
            q = {"ops": ops + (tail_ops(rng) if not tail else tail(rng, ops) if tail.__code__.co_argcount == 2 else tail(rng))}
            jobs.append({"prog": q, "cfg": make_cfg(rng, **over), "place": place, "noworker": noworker})
    return jobs
