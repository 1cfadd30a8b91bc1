"""Exhaustive model checking of the interface specification on small programs (spec/UnidistMC.tla)."""
import json
import os
import tempfile

import gen
import prog as P
import tlc


def progs(seed, n, length):
    out = []
    pf = gen.profile(kinds=[0], w=["put", "sub", "sub", "burst", "get", "get", "wait", "actor", "call", "call"], beh=["ok", "ok", "ok", "raise"], maxact=1,
                     len=length, nret=[1, 1, 2], argk=["x", "x", "L"], cargk=["x"], nkw=[0], nargs=[0, 1, 2], getlen=[1, 2])
    for p in gen.generate(pf, n, seed):
        ops = []
        for op in p["ops"]:
            o = op["o"]
            if o == "put":
                ops.append({"e": "put", "r": op["r"], "c": 0})
            elif o in ("sub", "call"):
                ops.append({"e": "sub", "t": op["t"], "c": 0})
            elif o == "actor":
                ops.append({"e": "actor", "A": op["A"], "c": 0})
            elif o == "get":
                ops.append({"e": "geti", "g": op["g"], "c": 0})
            elif o == "wait":
                ops.append({"e": "waiti", "w": op["w"], "c": 0})
            elif o == "dela":
                ops.append({"e": "dela", "A": op["A"]})
        if len(out) % 2:
            ops.append({"e": "shut"})
        out.append({"prog": P.flatten(p, 3), "ops": ops})
    return out


def model(ctx, s):
    n, length = (40, 5) if ctx.tier == "quick" else (150, 8)
    ps = [p for p in progs(ctx.seed * 13 + 1, n, length) if len(p["prog"]["tasks"]) <= (6 if ctx.tier == "quick" else 8)]
    fd, path = tempfile.mkstemp(suffix=".json", prefix="progs-")
    with os.fdopen(fd, "w") as f:
        json.dump(ps, f)
    try:
        rc, out = tlc.run("UnidistMC", env={"PROGS": path}, workers=8, timeout=600, heap="8g")
    finally:
        os.unlink(path)
    g, d = tlc.stats(out)
    if rc != 0 or "No error has been found" not in out:
        raise RuntimeError("UnidistMC: " + out[-3000:])
    ctx.states += d
    ctx.trans += g
    ctx.count("spec-UnidistMC", programs=len(ps), model_states=d, model_transitions=g)
