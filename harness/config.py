"""C17: behaviours of spec/Config.tla on the real settings, and the settings seen by all processes of a run."""
import json
import os
import random
import shutil
import subprocess
import tempfile

import paths
import shm
import tlc

TRICKY = ["plain", "with space", "it's", 'say "hi"', "back\\slash", "c:\\new\\table", "semi;colon", "{braces}", "%s %d", "", "ünï", "'; import os; '",
          "trailing\\", "line\nbreak", "a=b=c", "#x"]


def resolve(ctx, s):
    """Every behaviour TLC enumerates, replayed on the real classes."""
    rc, out = tlc.run("Config", cfg="Config.cfg" if ctx.tier == "quick" else "Config3.cfg", workers=4, timeout=300)
    beh = list(tlc.printed_json(out))
    g, d = tlc.stats(out)
    if "No error has been found" not in out or len(beh) < 1000:
        raise RuntimeError("Config: " + out[-2000:])
    beh.sort(key=lambda b: json.dumps(b))
    tmp = tempfile.mkdtemp(prefix="cfg-")
    try:
        with open(tmp + "/b.json", "w") as f:
            json.dump(beh, f)
        p = subprocess.run([paths.PY, os.path.join(paths.HARNESS, "cfgwalk.py"), tmp + "/b.json", tmp + "/o.json"],
                           env=paths.clean_env({"PYTHONPATH": paths.REPO}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise RuntimeError("cfgwalk: " + p.stdout[-2000:])
        res = json.load(open(tmp + "/o.json"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.states += d
    ctx.trans += g
    ctx.traces += len(res)
    ctx.count("resolve", behaviours=len(res), steps=sum(len(o) for _, o in res))
    for n, got in res:
        b = beh[n]
        want = [h["r"] for h in b["hist"]]
        ctx.events += len(want)
        if len(got) != len(want) or any(w != "?" and g_ != w for g_, w in zip(got, want)):
            i = next((i for i, (g_, w) in enumerate(zip(got, want)) if w != "?" and g_ != w), 0)
            ctx.found.append(dict(kind="config", clauses=["config-" + b["hist"][i]["o"]], slice="resolve", program=b, got=got, expected=want))
    if len(ctx.samples) < 2:
        ctx.samples.append({"behaviour": beh[len(beh) // 2], "replayed": dict((str(n), o) for n, o in res).get(str(len(beh) // 2))})


def _setting(rng, api, env):
    """(environment text, API value, meanings) of one setting: set in neither, one or both places."""
    x = rng.random()
    return (None if x < 0.35 else env), (None if x < 0.2 or 0.35 <= x < 0.55 else api)


def job(rng, k):
    W = rng.choice([2, 3])
    shared = rng.random() < 0.5
    spmd = rng.random() < 0.3
    hosts2 = shared and rng.random() < 0.4
    sets, envs, ucfg = [], {}, {}

    def add(name, var, values, force=None):
        """values: list of (api value, env text, meaning)."""
        ea, aa = rng.choice(values), rng.choice(values)
        x = rng.random()
        mode = force or ("none" if x < 0.25 else "env" if x < 0.5 else "api" if x < 0.75 else "both")
        ev = av = "-"
        if mode in ("env", "both"):
            envs[var] = ea[1]
            ev = ea[2]
        if mode in ("api", "both"):
            ucfg[name] = aa[0] if rng.random() < 0.7 else aa[1]
            av = aa[2]
        sets.append({"name": name, "ev": ev, "av": av})

    I = lambda *xs: [(x, str(x), str(x)) for x in xs]
    ucfg["Backend"] = "mpi"
    sets.append({"name": "Backend", "ev": "-", "av": "'mpi'"})
    add("CpuCount", "UNIDIST_CPUS", I(W), force=rng.choice(["env", "api", "both"]))
    add("MpiPickleThreshold", "UNIDIST_MPI_PICKLE_THRESHOLD", I(64, 1000, 4096, 262144))
    add("MpiBackoff", "UNIDIST_MPI_BACKOFF", [(0.001, "0.001", "0.001"), (0.01, "0.01", "0.01"), (0.0001, "0.0001", "0.0001"), (2.5e-05, "0.000025", "2.5e-05")])
    add("MpiLog", "UNIDIST_MPI_LOG", [(True, "yes", "True"), (False, "no", "False"), (True, "1", "True"), (False, "False", "False")])
    hosts = ["10.0.0.1", "10.0.0.2"] if hosts2 else ["10.0.0.1"]
    if hosts2:
        h = ",".join(hosts)
        add("MpiHosts", "UNIDIST_MPI_HOSTS", [(h, h, repr(h))], force=rng.choice(["env", "api", "both"]))
    T, F = [(True, "true", "True"), (True, "1", "True")], [(False, "false", "False"), (False, "0", "False")]
    if shared:
        m = rng.choice(["env", "api", "over"])
        if m == "over":
            envs["UNIDIST_MPI_SHARED_OBJECT_STORE"] = "false"
            ucfg["MpiSharedObjectStore"] = True
            sets.append({"name": "MpiSharedObjectStore", "ev": "False", "av": "True"})
        else:
            add("MpiSharedObjectStore", "UNIDIST_MPI_SHARED_OBJECT_STORE", T, force=m)
        add("MpiSharedObjectStoreMemory", "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY", I(4 << 20, 3000000), force=rng.choice(["env", "api", "both"]))
        add("MpiSharedServiceMemory", "UNIDIST_MPI_SHARED_SERVICE_MEMORY", I(1 << 16, 40000), force=rng.choice(["env", "api", "both"]))
        add("MpiSharedObjectStoreThreshold", "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD", I(100, 5000, 100000))
    else:
        m = rng.choice(["none", "env", "api", "over"])
        if m == "over":
            envs["UNIDIST_MPI_SHARED_OBJECT_STORE"] = "yes"
            ucfg["MpiSharedObjectStore"] = False
            sets.append({"name": "MpiSharedObjectStore", "ev": "True", "av": "False"})
        else:
            add("MpiSharedObjectStore", "UNIDIST_MPI_SHARED_OBJECT_STORE", F, force=m)
        add("MpiSharedObjectStoreThreshold", "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD", I(100, 5000))
    if spmd:
        m = rng.choice(["env", "api", "over"])
        if m == "over":
            envs["UNIDIST_MPI_SPAWN"] = "1"
            ucfg["MpiSpawn"] = False
            sets.append({"name": "MpiSpawn", "ev": "True", "av": "False"})
        else:
            add("MpiSpawn", "UNIDIST_MPI_SPAWN", F, force=m)
    else:
        add("MpiSpawn", "UNIDIST_MPI_SPAWN", T)
    vars_ = {}
    if rng.random() < 0.7:
        for i in range(rng.randrange(1, 4)):
            v = rng.choice(TRICKY) if rng.random() < 0.8 else rng.choice([5, 0, 1.5, True])
            vars_["UV_VAR%d" % i] = v
    pre = rng.random() < 0.4  # settings are read in another state before init
    cfg = {"seed": rng.randrange(1 << 30), "hosts": hosts, "strategy": rng.choice(["random", "rtb", "fifo"]), "eager": 4096, "tick": 0.0,
           "byvalue": rng.random() < 0.5, "rtb_switch": 0.1, "poll_p": 0.0, "gcp": 0.0, "env": envs, "ucfg": ucfg, "W": W, "cwd": True,
           "runtime_env": {"env_vars": vars_} if vars_ else None, "preread": pre}
    if hosts2:
        cfg["host_cycle"] = True
    if spmd:
        cfg["world_size"] = W + 1 + (len(hosts) if shared else 1)
    v = rng.randrange(9000) * 64
    prog = {"ops": [{"o": "put", "r": 1, "v": v}, {"o": "cfgscan"}, {"o": "get", "g": 1, "rs": [1], "l": False}, {"o": "shutdown"}]}
    return {"prog": prog, "cfg": cfg, "set": sets, "vars": [{"k": k, "v": str(x)} for k, x in vars_.items()]}


def propagate(ctx, s):
    """Settings and environment of every process of simulated runs (spawned workers and mpiexec -n N)."""
    import runner
    import simpool

    rng = random.Random(ctx.seed * 31 + 7)
    n = 250 if ctx.tier == "quick" else 2500
    jobs = [job(rng, k) for k in range(n)]
    ctx.pool = ctx.pool or simpool.Pool(8)
    recs = runner.run_round(ctx, [(s, j) for j in jobs], None)
    runs, src = [], []
    for _, j, r in recs:
        scan = [e for e in r["log"] if e.get("e") == "cfgs"]
        ctx.count("propagate", runs=1)
        ctx.traces += 1
        nproc = j["cfg"]["W"] + 1 + (len(j["cfg"]["hosts"]) if any(x["name"] == "MpiSharedObjectStore" and "True" == (
            x["av"] if x["av"] != "-" else x["ev"]) for x in j["set"]) else 1)
        if not scan or r["status"] != "done":
            ctx.found.append(dict(kind="sim", clauses=["config-run"], slice="propagate", job=j, status=r["status"], detail=r.get("detail"),
                                  events=[e for e in r["log"] if "e" in e][-20:], outputs=r.get("outputs"), pending=r.get("pending")))
            continue
        obs = [{"p": int(p), "v": o["v"], "e": [o["e"].get(x["k"], "<unset>") for x in j["vars"]]} for p, o in sorted(scan[0]["by"].items(), key=lambda q: int(q[0]))]
        if len(obs) != nproc:
            ctx.found.append(dict(kind="sim", clauses=["config-processes"], slice="propagate", job=j, status=r["status"], expected=nproc, got=len(obs)))
            continue
        ctx.events += len(obs)
        runs.append({"set": j["set"], "obs": obs, "vars": j["vars"]})
        src.append(j)
    if not runs:
        return
    bad, (g, d) = shm.validate(runs, "ConfigTrace")
    ctx.states += d
    ctx.trans += g
    for j, r, b in zip(src, runs, bad):
        cl = sorted({c for _, cs in b for c in cs})
        if cl:
            ctx.found.append(dict(kind="sim", clauses=cl, slice="propagate", job=j, observed=r["obs"], settings=r["set"]))
        elif len(ctx.samples) < 3:
            ctx.samples.append({"settings": r["set"], "processes": len(r["obs"]), "requested_variables": r["vars"]})
