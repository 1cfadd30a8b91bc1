"""Program generation with TLC simulation of spec/UnidistGen.tla."""
import json
import os
import tempfile

import tlc

DEFAULT = {
    "w": ["put", "put", "sub", "sub", "sub", "burst", "get", "get", "del"],
    "kinds": [0, 1, 3, 4, 5, 7, 8, 9],
    "refarg": [0, 1, 1],
    "argk": ["x", "x", "x", "x", "L", "T", "D"],
    "cargk": ["x"],
    "nargs": [0, 1, 1, 2, 2, 3],
    "nkw": [0, 0, 0, 1, 2],
    "nret": [1, 1, 1, 1, 2, 3, 0],
    "nform": ["opt", "dec", "opt1"],
    "oform": ["list", "tuple"],
    "beh": ["ok"],
    "cbeh": None,
    "ctor": ["ok"],
    "dur": [0, 0, 0, 0],
    "mut": [0],
    "amut": [0],
    "getlist": [0, 1],
    "getlen": [1, 2, 3, 4],
    "ndel": [1, 2],
    "maxact": 0,
    "meth": [""],
    "nest": ["put", "sub"],
    "sleep": [1],
    "churn": [12],
    "churntask": [0],
    "churnd": [0],
    "fin": [1],
    "len": 12,
}


def profile(**kw):
    d = dict(DEFAULT)
    d.update(kw)
    if d["cbeh"] is None:
        d["cbeh"] = d["beh"]
    return d


def generate(pf, num, seed, timeout=120):
    """num random programs of the profile (lists of operations, final "end" removed)."""
    pf = {k: v for k, v in pf.items()}
    fd, path = tempfile.mkstemp(suffix=".json", prefix="profile-")
    with os.fdopen(fd, "w") as f:
        json.dump(pf, f)
    try:
        rc, out = tlc.run("UnidistGen", env={"PROFILE": path}, workers=1, timeout=timeout,
                          args=["-simulate", "num=%d" % num, "-depth", str(pf["len"] + 3), "-seed", str(seed), "-aril", "0"])
    finally:
        os.unlink(path)
    progs = []
    seen = set()
    for ops in tlc.printed_json(out):
        key = json.dumps(ops)
        if key in seen:
            continue
        seen.add(key)
        progs.append({"ops": ops[:-1]})
    if len(progs) < max(1, num // 4):
        raise RuntimeError("generation failed:\n" + out[-3000:])
    return progs[:num]
