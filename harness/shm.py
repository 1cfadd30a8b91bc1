"""C13: the reachable states of the real allocator against spec/ShmAlloc.tla."""
import json
import os
import subprocess
import tempfile

import paths
import tlc


def model(ctx, name, module, cfg=None, timeout=300):
    """Exhaustive TLC check of a specification; a failure is a failure of the machinery."""
    rc, out = tlc.run(module, cfg=cfg, workers=4, timeout=timeout)
    g, d = tlc.stats(out)
    if rc != 0 or "No error has been found" not in out:
        raise RuntimeError("%s: %s" % (module, out[-2000:]))
    ctx.states += d
    ctx.trans += g
    ctx.count(name, model_states=d, model_transitions=g)


def validate(walks, module, timeout=600):
    fd, path = tempfile.mkstemp(suffix=".json", prefix="walks-")
    with os.fdopen(fd, "w") as f:
        json.dump(walks, f)
    try:
        rc, out = tlc.run(module, env={"TRACES": path}, workers=8, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {j["trace"]: j["bad"] for j in tlc.printed_json(out)}
    if len(bad) != len(walks):
        raise RuntimeError("validation incomplete (%d of %d)\n%s" % (len(bad), len(walks), out[-3000:]))
    return [bad[i + 1] for i in range(len(walks))], tlc.stats(out)


def alloc(ctx, s):
    model(ctx, "spec-ShmAlloc", "ShmAlloc")
    tmp = tempfile.mkdtemp(prefix="shm-")
    out = os.path.join(tmp, "w.json")
    try:
        p = subprocess.run([paths.PY, os.path.join(paths.HARNESS, "shmwalk.py"), out, str(ctx.seed), str(int(ctx.tier != "quick")), paths.build_memory()],
                           env=paths.clean_env({"PYTHONPATH": paths.REPO}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise RuntimeError("shmwalk: " + p.stdout[-2000:])
        res = json.load(open(out))
    finally:
        subprocess.run(["rm", "-rf", tmp])
    for x in res["skipped"]:
        ctx.count("alloc-skipped", **{x[:80]: 1})
    for k, v in res["info"].items():
        ctx.count("alloc-" + k, states=v["states"], transitions=v["transitions"], complete=int(v["complete"]))
    keep = ("o", "id", "n", "ids", "pre", "post", "refs", "pend")
    walks = [{"M": w["M"], "N": w["N"], "steps": [{k: e[k] for k in keep} for e in w["steps"]]} for w in res["walks"]]
    if not walks:
        return
    bad, (g, d) = validate(walks, "ShmTrace")
    ctx.states += d
    ctx.trans += g
    ctx.traces += len(walks)
    ctx.events += sum(len(w["steps"]) for w in walks)
    for w, b in zip(res["walks"], bad):
        if b:
            i = b[0][0]
            ctx.found.append(dict(kind="alloc", clauses=sorted({c for _, cl in b for c in cl}), slice="alloc", what=w["what"], M=w["M"], N=w["N"],
                                  program=w["path"] or w["ops"][:i], step=w["steps"][i - 1]))
    if len(ctx.samples) < 2:
        w = res["walks"][len(res["walks"]) // 3]
        ctx.samples.append({"what": w["what"], "history": w["path"], "steps": w["steps"][:3]})
