"""The copy into shared memory: spec/MemCopy.tla and the real function."""
import json
import os
import shutil
import subprocess
import tempfile

import paths
import shm


def copy(ctx, s):
    shm.model(ctx, "spec-MemCopy", "MemCopy")
    tmp = tempfile.mkdtemp(prefix="mem-")
    try:
        out = os.path.join(tmp, "o.json")
        p = subprocess.run([paths.PY, os.path.join(paths.HARNESS, "memwalk.py"), paths.build_memory(), out, str(int(ctx.tier != "quick"))],
                           env=paths.clean_env({}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if not os.path.exists(out):
            at = json.load(open(out + ".at")) if os.path.exists(out + ".at") else None
            if at is None:
                raise RuntimeError("memwalk: " + p.stdout[-2000:])
            ctx.found.append(dict(kind="copy", clauses=["copy-crash"], slice=s.name, program=dict(zip(("align", "n", "threads", "dst"), at)), detail=p.stdout[-500:]))
            return
        res = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.count("copy", cases=res["cases"], skipped=int(res["skipped"]))
    ctx.traces += res["cases"]
    for b in res["bad"][:20]:
        ctx.found.append(dict(kind="copy", clauses=["copy-content" if not b["content"] else "copy-out-of-bounds"], slice=s.name, program=b))
