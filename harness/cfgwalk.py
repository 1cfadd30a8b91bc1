"""Replays behaviours of spec/Config.tla on the settings of the library (run with the interpreter of the code).

usage: cfgwalk.py BEHAVIOURS.json OUT.json
"""
import ast
import json
import os
import sys


def play(cls, hist, sources):
    out = []
    for h in hist:
        try:
            if h["o"] == "get":
                r = repr(cls.get())
            elif h["o"] == "source":
                v = cls.get_value_source()
                r = sources.get(v, repr(v))
            else:
                cls.put(ast.literal_eval(h["x"]))
                r = "ok"
        except Exception:
            r = "!"
        out.append(r)
    return out


def main():
    data = json.load(open(sys.argv[1]))
    import unidist.config as cfg
    from unidist.config import parameter as pm

    sources = {pm.ValueSource.DEFAULT: "DEFAULT", pm.ValueSource.SET_BY_USER: "SET_BY_USER", pm.ValueSource.GOT_FROM_CFG_SOURCE: "GOT_FROM_CFG_SOURCE"}
    types = {"bool": bool, "int": int, "float": float, "exact": pm.ExactStr, "backend": str}
    for k in [k for k in os.environ if k.startswith("UNIDIST_")]:
        del os.environ[k]
    res = []
    groups = {}
    for n, b in enumerate(data):
        if b["name"]:
            groups.setdefault((b["name"], b["env"]), []).append(n)
            continue
        os.environ.pop("UV_SETTING", None)
        if b["env"] != "-":
            os.environ["UV_SETTING"] = ast.literal_eval(b["env"])
        ns = {"varname": "UV_SETTING", "default": ast.literal_eval(b["def"])}
        if b["ty"] == "backend":
            ns["choices"] = ("ray", "dask", "mpi", "pymp", "pyseq")

        class Base(pm.EnvironmentVariable, type=types[b["ty"]]):
            varname = "UV_SETTING"
            default = ns["default"]
            choices = ns.get("choices")

        res.append((n, play(Base, b["hist"], sources)))
    os.environ.pop("UV_SETTING", None)
    # the real settings keep their state in the class: one process per behaviour
    for (name, env), idx in sorted(groups.items()):
        for n in idx:
            b = data[n]
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                if env != "-":
                    os.environ[b["var"]] = ast.literal_eval(env)
                out = json.dumps(play(getattr(cfg, name), b["hist"], sources))
                os.write(w, out.encode())
                os._exit(0)
            os.close(w)
            buf = b""
            while True:
                c = os.read(r, 65536)
                if not c:
                    break
                buf += c
            os.close(r)
            os.waitpid(pid, 0)
            res.append((n, json.loads(buf) if buf else ["died"]))
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
