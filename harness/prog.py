"""Programs: flattening to the tables of the specification, conversion of histories, trace validation."""
import json
import os
import tempfile

import paths
import tlc


def conv_arg(a):
    if a[0] in ("c", "r", "h"):
        return {"k": a[0], "x": a[1]}
    return {"k": a[0], "x": [conv_arg(x) for x in a[1]]}


def flatten(prog, W, place=False, noworker=False):
    """Tables of spec/UnidistAPI.tla for a program; ids must be contiguous from 1."""
    tasks, refs, gets, waits, actors = {}, {}, {}, {}, {}

    def walk(ops, c):
        for op in ops:
            o = op["o"]
            if o == "put":
                refs[op["r"]] = {"t": 0, "i": 0, "v": op["v"]}
            elif o in ("sub", "call"):
                t = op["t"]
                args = [conv_arg(a) for a in op["a"]] + [conv_arg(a) for _, a in op["kw"]]
                tasks[t] = {"t": t, "c": c, "a": args, "n": op["n"], "b": op["b"], "k": op["k"], "rs": op["rs"],
                            "A": op.get("A", 0), "m": op.get("m", "")}
                for i, r in enumerate(op["rs"]):
                    refs[r] = {"t": t, "i": i, "v": 0}
                if op.get("body"):
                    walk(op["body"], t)
            elif o == "actor":
                a = op["a"][0]
                actors[op["A"]] = {"v": a[1], "c": c, "b": op.get("b", "ok")}
            elif o == "get":
                gets[op["g"]] = {"rs": op["rs"], "l": op["l"], "c": c}
            elif o == "get2":
                gets[op["g"]] = {"rs": [op["inner"]], "l": False, "c": c}
            elif o == "wait":
                waits[op["w"]] = {"rs": op["rs"], "n": op["n"], "c": c}

    walk(prog["ops"], 0)

    def seq(d, name):
        n = len(d)
        if sorted(d) != list(range(1, n + 1)):
            raise ValueError("ids of %s not contiguous: %s" % (name, sorted(d)))
        return [d[i] for i in range(1, n + 1)]

    return {"tasks": seq(tasks, "tasks"), "refs": seq(refs, "refs"), "gets": seq(gets, "gets"), "waits": seq(waits, "waits"),
            "actors": seq(actors, "actors"), "W": W, "place": place, "noworker": noworker}


KEEP = {
    "put", "putr", "sub", "subr", "start", "end", "fail", "geti", "getr", "getx", "waiti", "waitr", "waitx", "actor", "actorr", "dela",
    "ctor", "operr", "settle", "shut", "shutr", "init", "done", "held", "heldarg", "del", "scan",
}


def events(res):
    """Events for the specification from a simulator (or real-backend) result."""
    out = [{"e": "begin"}]
    for ev in res["log"]:
        e = ev.get("e")
        if e in KEEP:
            if e in ("start", "end", "fail") and ev.get("t") == 0:
                continue
            d = {k: v for k, v in ev.items() if k in ("e", "t", "c", "r", "rs", "g", "w", "v", "x", "n", "A", "i", "s", "p", "rdy", "nr", "ok", "o", "hs")}
            if e == "operr":
                d.pop("x", None)
            out.append(d)
        elif ev.get("ev") == "exit":
            if ev.get("late"):
                continue
            out.append({"e": "exit", "p": ev["proc"], "code": ev["code"], "fin": bool(ev["fin"])})
        elif ev.get("ev") == "mpi_error":
            out.append({"e": "mpi_error"})
    out.append({"e": "final", "status": res["status"]})
    return out


def validate(items, workers=8, timeout=600):
    """items: list of {"prog": tables, "ev": events}.  Returns list of [(event index, [rules])] per item, states."""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="traces-")
    with os.fdopen(fd, "w") as f:
        json.dump(items, f)
    try:
        rc, out = tlc.run("UnidistTrace", env={"TRACES": path}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {}
    for j in tlc.printed_json(out):
        bad[j["trace"]] = [(b[0], sorted(b[1])) for b in j["bad"]]
    if len(bad) != len(items):
        raise RuntimeError("trace validation incomplete (%d of %d)\n%s" % (len(bad), len(items), out[-3000:]))
    return [bad[i + 1] for i in range(len(items))], tlc.stats(out)
