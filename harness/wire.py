"""C16: every tree of spec/Wire.tla through the real code."""
import json
import os
import random

import paths
import shm
import tlc

MODES = ["put", "arg", "arg2", "val", "nest", "make", "multi", "actor", "mput"]
KNOWN = [  # (key in KNOWN_FINDINGS.txt, tree): values msgpack encodes by itself, losing the type
    ("bytearray", {"k": "bytearray", "c": []}), ("bytearray", {"k": "list", "c": [{"k": "bytearray", "c": []}]}),
    ("bytearray", {"k": "dict", "c": [{"k": "bytearray", "c": []}]}),
]


def trees(ctx):
    rc, out = tlc.run("Wire", workers=4, timeout=300)
    g, d = tlc.stats(out)
    ts = list(tlc.printed_json(out))
    if "No error has been found" not in out or len(ts) < 2000:
        raise RuntimeError("Wire: " + out[-2000:])
    ctx.states += d
    ctx.trans += g
    ctx.count("spec-Wire", model_states=d, model_transitions=g, trees=len(ts))
    ts.sort(key=json.dumps)
    return ts


def job(rng, vals, shared=None):
    W = rng.choice([2, 2, 3])
    shared = rng.random() < 0.4 if shared is None else shared
    thr = rng.choice([0, 1, 64, 64, 1000, 4096])
    ucfg = {"Backend": "mpi", "CpuCount": W + 1, "MpiPickleThreshold": thr}
    cfg = {"seed": rng.randrange(1 << 30), "hosts": ["10.0.0.1"], "strategy": rng.choice(["fifo", "rtb", "random"]), "eager": rng.choice([64, 4096, 100000]),
           "tick": 0.0, "byvalue": rng.random() < 0.5, "rtb_switch": 0.1, "poll_p": 0.0, "gcp": rng.choice([0.0, 0.01]), "max_steps": 400000, "wall": 240,
           "blocksize": rng.choice([0, 1000, 100, 333, 4096, 65536])}
    if shared:
        ucfg.update(MpiSharedObjectStore=True, MpiSharedObjectStoreThreshold=thr, MpiSharedObjectStoreMemory=32 << 20, MpiSharedServiceMemory=1 << 17)
        if rng.random() < 0.4:
            cfg["hosts"] = ["10.0.0.1", "10.0.0.2"]
            cfg["host_cycle"] = True
            ucfg["MpiHosts"] = "10.0.0.1,10.0.0.2"
    cfg["ucfg"], cfg["W"] = ucfg, W + 1
    op = {"o": "wire", "vals": [[t, rng.randrange(1, 90000), rng.sample(MODES, 2) if len(json.dumps(t)) < 400 else rng.sample(MODES, 2)] for t in vals],
          "actor": 1, "bulk": int(rng.random() < 0.4)}
    return {"prog": {"ops": [op, {"o": "shutdown"}]}, "cfg": cfg}


def codec(ctx, s):
    import runner
    import simpool

    ts = trees(ctx)
    rng = random.Random(ctx.seed * 97 + 5)
    jobs = []
    small = [t for t in ts if len(json.dumps(t)) < 70]  # leaves and one container around a leaf
    rest = [t for t in ts if len(json.dumps(t)) >= 70]
    rng.shuffle(rest)
    if ctx.tier == "quick":
        pick = small + rest[:400]
        rounds = 1
    else:
        pick = ts
        rounds = 5
    for _ in range(rounds):
        rng.shuffle(pick)
        jobs += [job(rng, pick[i : i + 16]) for i in range(0, len(pick), 16)]
    ctx.pool = ctx.pool or simpool.Pool(8)
    recs = runner.run_round(ctx, [(s, j) for j in jobs], None)
    check(ctx, s, recs)
    if not ctx.found:
        known(ctx, s, rng)


def check(ctx, s, recs):
    traces = []
    for _, j, r in recs:
        ev = [e for e in r["log"] if e.get("e") == "wire"]
        ctx.count("wire", runs=1, crossings=sum(len(e["g"]) for e in ev), values=len({e["i"] for e in ev}))
        ctx.traces += 1
        ctx.events += len(ev)
        vals = j["prog"]["ops"][0]["vals"]
        traces.append([{"m": e["m"], "w": e["w"], "g": e["g"]} for e in ev])
        if r["status"] != "done" or any(e.get("e") == "operr" for e in r["log"]):
            ctx.found.append(dict(kind="sim", clauses=["wire-run"], slice=s.name, job=j, status=r["status"], detail=r.get("detail"), pending=r.get("pending"),
                                  events=[e for e in r["log"] if "e" in e][-8:], outputs=r.get("outputs")))
    if not traces:
        return
    bad, (g, d) = shm.validate(traces, "WireTrace")
    ctx.states += d
    ctx.trans += g
    for (_, j, r), tr, b in zip(recs, traces, bad):
        ev = [e for e in r["log"] if e.get("e") == "wire"]
        vals = j["prog"]["ops"][0]["vals"]
        if b:
            e = ev[b[0][0] - 1]
            one = dict(j, prog={"ops": [dict(j["prog"]["ops"][0], vals=[vals[e["i"]]]), {"o": "shutdown"}]})
            ctx.found.append(dict(kind="sim", clauses=sorted({c for _, cs in b for c in cs}), slice=s.name, job=one, status=r["status"],
                                  detail="tree %s: sent %s, arrived %s" % (json.dumps(vals[e["i"]][0]), e["w"], e["g"])))
        elif len(ctx.samples) < 3:
            ctx.samples.append({"tree": vals[0][0], "crossings": [e for e in ev if e["i"] == 0], "settings": j["cfg"]["ucfg"], "blocksize": j["cfg"]["blocksize"]})


def known(ctx, s, rng):
    """The listed findings: reported as such as long as they fail in the listed way."""
    import runner

    listed = open(os.path.join(paths.VERIF, "KNOWN_FINDINGS.txt")).read()
    jobs = []
    for key, t in KNOWN:
        for sh in (False, True):
            j = job(rng, [t], sh)
            j["prog"]["ops"][0]["vals"][0][2] = ["put", "arg", "val", "make"]
            jobs.append((s, dict(j, key=key)))
    seen = set()
    for _, j, r in runner.run_round(ctx, jobs, None):
        for e in [e for e in r["log"] if e.get("e") == "wire"]:
            if all(g == e["w"] for g in e["g"]):
                continue
            t = j["prog"]["ops"][0]["vals"][0]
            if "known: property=C16 key=%s" % j["key"] in listed and r["status"] == "done" and all(g == e["w"] or lost(g, t) for g in e["g"]):
                seen.add(j["key"])
            else:
                ctx.found.append(dict(kind="sim", clauses=["wire-" + e["m"]], slice=s.name, job=j, status=r["status"], detail=str(e)))
    for k in sorted(seen):
        line = [l for l in listed.splitlines() if l.startswith("known: property=C16 key=%s " % k)][0]
        ctx.known.append(line.split(None, 2)[2])


def lost(g, t):
    """The digest of the same value with bytes in place of the bytearray."""
    import subprocess

    code = ("import sys, json; sys.path.insert(0, %r); import uwire; uwire.SIMPLE['bytearray'] = lambda h: b'ba%%d' %% h; "
            "t = json.loads(sys.argv[1]); print(uwire.digest(uwire.build(t[0], t[1], 64)))" % paths.SIM)
    key = json.dumps(t[:2])
    if key not in CACHE:
        CACHE[key] = subprocess.run([paths.PY, "-c", code, key], stdout=subprocess.PIPE, text=True, env=paths.clean_env({})).stdout.strip()
    return g == CACHE[key]


CACHE = {}
