"""Which campaigns decide which property (see DESIGN.md)."""
import config
import gen
import mc
import memcopy
import shm
import wire

D = gen.DEFAULT
ALLK = [k for k in range(29) if k != 15]  # 15: bytearray, see known_findings.json
BIGK = [0, 3, 8, 9, 10, 11, 14, 19, 22, 24, 25, 26]


class Slice:
    """One family of programs and run configurations."""

    kind = "sim"

    def __init__(self, name, pf, weight=1, tail=None, place=False, noworker=False, **over):
        self.name, self.pf, self.weight, self.tail, self.place, self.noworker, self.over = name, pf, weight, tail, place, noworker, over


class Real:
    kind = "real"

    def __init__(self, backend, pf, n, cpus=3, ignore=(), place=False):
        self.name, self.backend, self.pf, self.n, self.cpus, self.ignore, self.place = "real-" + backend, backend, pf, n, cpus, ignore, place


class Custom:
    """fn(ctx) -> dict(bad=[(text, payload)], runs=int, states=int, transitions=int, samples=[..])"""

    kind = "custom"

    def __init__(self, name, fn, weight=1):
        self.name, self.fn, self.weight = name, fn, weight


def cut_tail(rng):
    """Shutdown at an arbitrary moment."""
    x = rng.random()
    if x < 0.45:
        return [{"o": "shutdown"}]
    if x < 0.65:
        return [{"o": "shutdown"}, {"o": "shutdown"}]
    if x < 0.75:
        return [{"o": "settle"}, {"o": "shutdown"}]
    return []


def reclaim_tail(rng, ops):
    """Drop (most of) the references, keep using the API, then look what is still in memory."""
    refs, acts = [], []
    for op in ops:
        if op["o"] == "put":
            refs.append(op["r"])
        elif op["o"] in ("sub", "call"):
            refs += op["rs"]
        elif op["o"] == "del":
            refs = [r for r in refs if r not in op["rs"]]
    drop = [r for r in refs if rng.random() < 0.85]
    rng.shuffle(drop)
    out = [{"o": "del", "rs": drop}] if drop else []
    out += [{"o": "reclaim", "n": 3, "task": rng.choice([0, 0, 6])}, {"o": "scan"}]
    if rng.random() < 0.5:
        out.append({"o": "shutdown"})
    return out


def flood_tail(rng):
    big = [{"o": "big", "mode": m, "n": 150 if m == "slots" else rng.choice([601000, 700000, 1500000])}
           for m in ("put", "out", "slots") if rng.random() < 0.4]
    rng.shuffle(big)
    return [{"o": "settle"}] + big + [ {"o": "flood", "n": 16, "v": rng.randrange(9000) * 64 + rng.choice([9, 11, 24, 28])}] + big[:1] + [{"o": "shutdown"}]


pr = gen.profile
ACT = ["actor", "call", "call", "call", "sub", "get", "put", "dela"]
ACTD = ACT + ["dupa"]
EXC = ["ok", "ok", "raise"]
REALPF = dict(beh=["ok", "ok", "ok", "raise"], w=["put", "sub", "sub", "burst", "get", "get", "wait", "actor", "call", "call", "dela"],
              maxact=1, argk=["x"], len=10)


def S(name, weight=1):
    """Named simulator slices."""
    mk = {
        "basic": lambda: Slice(name, pr(), shared=False),
        "basicany": lambda: Slice(name, pr(kinds=[0, 1, 3, 4, 8, 9, 10, 24])),
        "deep": lambda: Slice(name, pr(w=["put", "burst", "burst", "sub", "get"], len=16, nret=[1, 1, 2])),
        "shared": lambda: Slice(name, pr(), shared=True, hosts2=0.4),
        "sharedp": lambda: Slice(name, pr(kinds=[0, 8, 9, 10, 24, 3], len=8), shared=True, hosts2=0.4, preempt=[0.02, 0.1, 0.3]),
        "exc": lambda: Slice(name, pr(beh=EXC, w=D["w"] + ["wait"])),
        "exc2": lambda: Slice(name, pr(beh=["ok", "ok", "raise", "unser"], cbeh=["ok", "ok", "raise", "unser", "nometh"], ctor=["ok", "ok", "raise"],
                                       maxact=2, w=["actor", "call", "call", "call", "sub", "get", "put", "dela", "wait", "getall"],
                                       meth=["", "", "sleep"]), Ws=[3, 4]),
        "wait": lambda: Slice(name, pr(w=["put", "sub", "sub", "burst", "wait", "wait", "get"], dur=[0, 0, 1])),
        "waitexc": lambda: Slice(name, pr(w=["put", "sub", "burst", "wait", "wait", "get", "actor", "call"], beh=EXC, maxact=1, dur=[0, 0, 1],
                                          nret=[1, 1, 2, 3]), Ws=[2, 3, 4]),
        "actor": lambda: Slice(name, pr(w=ACTD, maxact=2), Ws=[3, 4]),
        "actordur": lambda: Slice(name, pr(w=["actor", "call", "call", "call", "burst", "get"], maxact=2, dur=[0, 1, 3], len=10), Ws=[3, 4]),
        "async": lambda: Slice(name, pr(w=["actor", "call", "call", "pair", "sub", "get", "put", "dela", "wait"], maxact=2,
                                        meth=["", "sleep", "yield"]), Ws=[3, 4]),
        "asyncexc": lambda: Slice(name, pr(w=["actor", "call", "call", "pair", "sub", "get", "wait"], maxact=2, beh=EXC, meth=["sleep", "yield", ""],
                                           nret=[1, 1, 2, 3, 0]), Ws=[3, 4]),
        "nest": lambda: Slice(name, pr(w=["nest", "sub", "get", "put", "nest"], nest=["put", "sub", "sub2", "fire", "get2", "firedel"]), Ws=[3, 4]),
        "nestact": lambda: Slice(name, pr(w=["nest", "sub", "get", "put", "nest", "actor", "call", "dela"], maxact=1,
                                          nest=["put", "sub", "csub", "hcall", "hfire", "nact"]), Ws=[3, 4]),
        "nestgc": lambda: Slice(name, pr(w=["nest", "sub", "get", "put", "nest", "del", "churn", "sleep"], nest=["churn", "sub", "fire", "firedel"],
                                         churntask=[0, 1]), Ws=[3, 4]),
        "over": lambda: Slice(name, pr(w=["actor", "nest", "nest"], maxact=1, nest=["hfires", "hcall"], len=3), Ws=[3, 4], eager=[1500, 4096, 100000], cfg={"slow_root": 0.9, "slow": 1500},
                              strategies=["random", "rtb", "pct", "starve", "lifo"]),
        "gc": lambda: Slice(name, pr(w=["put", "sub", "del", "churn", "get", "sub", "sleep", "actor", "call"], maxact=1, churntask=[0, 1]), Ws=[3, 4]),
        # clean-up while calls are running or wait for their arguments
        "gcpend": lambda: Slice(name, pr(w=["gcrace", "gcrace", "actor"], maxact=1, nret=[1], nargs=[0, 1, 1, 2], len=8), Ws=[2, 3, 3, 4, 4],
                                cfg={"lazy": True}),
        "gcsh": lambda: Slice(name, pr(w=["put", "sub", "del", "churn", "get", "sub", "sleep"], churntask=[0, 1], kinds=[0, 3, 8, 9, 10, 24]),
                              Ws=[2, 3, 4], shared=True, hosts2=0.3, hold=0.4),
        "holdsh": lambda: Slice(name, pr(w=["put", "call", "get", "del", "churn", "sleep", "put", "actor"], churntask=[0, 1], maxact=1, ndel=[2, 3],
                                         kinds=[8, 9, 24, 14, 25], len=14, nret=[1]), Ws=[2, 3], shared=True, hosts2=0.3, hold=0.7, thr_p=1.0),
        "reclaim": lambda: Slice(name, pr(w=["put", "sub", "sub", "get", "getall", "del", "burst", "actor", "call", "wait"], maxact=1, kinds=[10, 11, 28, 28],
                                          beh=["ok", "ok", "ok", "raise"], len=8, fin=[0, 1], meth=["", "", "sleep"]), Ws=[2, 3],
                                 shared=False, tail=reclaim_tail),
        "reclaimsh": lambda: Slice(name, pr(w=["put", "sub", "sub", "get", "getall", "del", "burst", "actor", "call", "wait"], maxact=1, kinds=[10, 11, 28, 28],
                                            beh=["ok", "ok", "ok", "raise"], len=8, fin=[0, 1]), Ws=[2, 3], shared=True, hosts2=0.3, tail=reclaim_tail),
        "reclaimnest": lambda: Slice(name, pr(w=["put", "sub", "nest", "nest", "get", "del"], kinds=[10, 11, 28, 28], len=6, fin=[0, 1],
                                              nest=["put", "sub", "fire", "sub2"]), Ws=[2, 3], shared=False, tail=reclaim_tail),
        "flood": lambda: Slice(name, pr(w=["put", "sub", "sub", "get", "del", "call"], maxact=1, kinds=[0, 9, 10, 28], beh=["ok", "ok", "ok", "raise"], len=5),
                               Ws=[2, 3], shared=True, hosts2=0.2, tail=flood_tail, shm=600000, shs=4096),
        "place": lambda: Slice(name, pr(w=["sub", "sub", "sub", "sub", "actor", "dela", "dupa", "call", "get", "put"], maxact=2, len=20, nest=["put"]),
                               place=True, Ws=[3, 4, 5]),
        "placenest": lambda: Slice(name, pr(w=["nest", "nest", "nest", "sub", "actor", "dela", "get"], maxact=1, len=12, nest=["put", "fire", "fire", "hfire"]),
                                   place=True, Ws=[2, 3, 4]),
        "placemany": lambda: Slice(name, pr(w=["sub", "sub", "actor", "actor", "dela", "dupa", "call", "get"], maxact=3, len=18), place=True, Ws=[4, 5]),
        "noworker": lambda: Slice(name, pr(w=["actor", "actor", "sub", "dela", "call", "get"], maxact=2, len=10, refarg=[0]), place=True, noworker=True,
                                  W=2),
        "nret": lambda: Slice(name, pr(nret=[0, 1, 2, 3, 4, 5], beh=["ok", "ok", "ok", "raise"], w=["put", "sub", "sub", "actor", "call", "call", "get"],
                                       maxact=1, oform=["list", "tuple", "deque", "oarr"]), Ws=[2, 3, 4]),
        "snap": lambda: Slice(name, pr(kinds=ALLK, mut=[1, 1, 0], amut=[1, 1, 0], w=["put", "put", "put", "sub", "sub", "get", "get"]), thr_p=0.8),
        "snapsh": lambda: Slice(name, pr(kinds=ALLK, mut=[1, 1, 0], amut=[1, 1, 0], w=["put", "put", "put", "sub", "sub", "get", "get"]), shared=True, hosts2=0.3),
        "vals": lambda: Slice(name, pr(kinds=ALLK, w=["put", "put", "sub", "sub", "sub", "get", "burst", "actor", "call"], maxact=1, nret=[1, 1, 2, 3]),
                              thr_p=0.8, Ws=[2, 3]),
        "valssh": lambda: Slice(name, pr(kinds=ALLK, w=["put", "put", "sub", "sub", "sub", "get", "burst"], nret=[1, 1, 2, 3]), shared=True,
                                hosts2=0.3, Ws=[2, 3]),
        "getlist": lambda: Slice(name, pr(w=["put", "sub", "burst", "get", "get", "get"], getlist=[1, 1, 0], getlen=[1, 2, 3, 4, 6, 8], nret=[1, 1, 2, 3])),
        "getlistexc": lambda: Slice(name, pr(w=["put", "sub", "burst", "get", "get", "get"], beh=["ok", "ok", "ok", "raise"], getlist=[1, 1, 0],
                                             getlen=[1, 2, 3, 4, 6], nret=[1, 1, 2])),
        "cut": lambda: Slice(name, pr(w=["put", "sub", "burst", "actor", "call", "get", "wait", "del"], maxact=1, beh=["ok", "ok", "ok", "raise"], fin=[0],
                                      dur=[0, 0, 1], len=9), tail=cut_tail, Ws=[2, 3, 4], hosts2=0.4),
        "cutasync": lambda: Slice(name, pr(w=["actor", "call", "call", "sub", "get"], maxact=1, meth=["", "sleep", "yield"], fin=[0], len=7, dur=[0, 1]),
                                  tail=cut_tail, Ws=[2, 3, 4]),
        "cutnest": lambda: Slice(name, pr(w=["nest", "nest", "sub", "put"], nest=["put", "fire", "sub", "sub2", "sub2", "get2"], fin=[0], len=4, dur=[0, 1, 2],
                                          nret=[1], kinds=[0, 8, 9]), tail=cut_tail, Ws=[3, 4, 5], tick=[0.0, 0.002, 0.3, 0.3]),
    }
    s = mk[name]()
    s.weight = weight
    return s


HANG = r"hang-(get|wait|sub|put|actor|init|other|nested)"
CORE = HANG + r"|mpi-error|not-run|op-error-(?!shutdown).*|exit-early"
GETV = r"get-(value|length|early|exc-unexpected)"

CHECKS = {
    "C01": dict(slices=[Custom("model", mc.model), S("basic", 3), S("basicany"), S("deep", 2), S("shared")],
                clauses=r"start-(args|inputs)|" + GETV + r"|end-kind|shape|" + CORE),
    "C02": dict(slices=[Custom("model", mc.model), S("basic", 2), S("exc"), S("actor"), S("nest"), Real("pymp", pr(**REALPF), 30), Real("pyseq", pr(**REALPF), 30)],
                clauses=r"start-(unsubmitted|twice|inputs|after-shutdown)|end-unexpected|actor-twice|" + CORE),
    "C03": dict(slices=[Custom("model", mc.model), S("deep", 2), S("basic", 2), S("getlist"), S("actor"), S("shared"), S("exc")],
                clauses=CORE + r"|get-exc-unexpected|start-(twice|inputs)"),
    "C04": dict(slices=[S("wait", 3), S("waitexc", 3), Real("pymp", pr(**REALPF), 40), Real("pyseq", pr(**REALPF), 40),
                        Real("dask", pr(**REALPF), 30, ignore=("actor-order",)), Real("ray", pr(**REALPF), 20, ignore=("actor-order",))],
                clauses=r"wait-.*|hang-wait|op-error-wait|mpi-error|exit-early"),
    "C05": dict(slices=[S("exc", 3), S("exc2", 2), S("asyncexc"), S("waitexc"), Real("pymp", pr(**REALPF), 40), Real("pyseq", pr(**REALPF), 40)],
                clauses=r"get-exc-.*|get-(early|value)|start-inputs|wait-exc|end-kind|" + CORE),
    "C06": dict(slices=[S("actor", 3), S("actordur", 2), S("nestact"), S("over", 2), Real("pymp", pr(**dict(REALPF, w=ACT, maxact=2)), 40),
                        Real("pyseq", pr(**dict(REALPF, w=ACT, maxact=2)), 40)],
                clauses=r"actor-.*|start-(twice|args|inputs)|get-value|get-exc-unexpected|end-.*|" + CORE),
    "C07": dict(slices=[S("async", 3), S("asyncexc", 3)],
                clauses=r"actor-.*|start-(twice|args|inputs)|get-.*|wait-.*|end-.*|shape|" + CORE),
    "C08": dict(slices=[S("place", 3), S("placemany", 2), S("noworker", 2), S("placenest", 2)],
                clauses=r"place-.*|hang-(sub|actor)|op-error-(sub|call|actor|dela)"),
    "C09": dict(slices=[S("nret", 4), S("asyncexc"), Real("pymp", pr(**dict(REALPF, nret=[0, 1, 2, 3, 4])), 40),
                        Real("pyseq", pr(**dict(REALPF, nret=[0, 1, 2, 3, 4])), 40),
                        Real("dask", pr(**dict(REALPF, nret=[0, 1, 2, 3, 4])), 30, ignore=("actor-order",)),
                        Real("ray", pr(**dict(REALPF, nret=[0, 1, 2, 3, 4])), 20, ignore=("actor-order",))],
                clauses=r"shape|get-.*|start-args|not-run|op-error-(sub|call|get)|hang-(get|sub)|end-kind|exit-early"),
    "C10": dict(slices=[S("snap", 3), S("snapsh", 2)],
                clauses=r"get-value|start-args|get-exc-unexpected|" + CORE),
    "C11": dict(slices=[S("gc", 2), S("gcpend", 3), S("gcsh", 2), S("nestgc")],
                clauses=r"get-.*|held-value|wait-.*|start-.*|" + CORE),
    "C12": dict(slices=[S("reclaim", 3), S("reclaimsh", 2), S("reclaimnest", 2), S("flood", 2)],
                clauses=r"not-reclaimed|op-error-(flood|reclaim|big)|hang-other|mpi-error|exit-early"),
    "C13": dict(slices=[Custom("alloc", shm.alloc), S("flood", 2), S("gcsh")],
                clauses=r"alloc-.*|op-error-(flood|reclaim|big|put|sub|get)|get-(value|exc-unexpected)|held-value|hang-other|hang-put|mpi-error|exit-early"),
    "C14": dict(slices=[Custom("copy", memcopy.copy), S("shared", 2), S("sharedp", 2), S("gcsh", 2), S("holdsh", 2)],
                clauses=r"copy-.*|get-value|held-value|start-args|get-exc-unexpected|" + CORE),
    "C15": dict(slices=[S("cut", 3), S("cutasync"), S("cutnest", 2), S("basicany"), S("shared")],
                clauses=r"exit-.*|hang-(exit|shutdown|other|init)|op-error-shutdown|mpi-error|start-after-shutdown"),
    "C16": dict(slices=[Custom("codec", wire.codec), Custom("copy", memcopy.copy), S("vals", 3), S("valssh", 3)],
                clauses=r"wire-.*|copy-.*|get-value|start-args|get-exc-unexpected|get-length|" + CORE),
    "C17": dict(slices=[Custom("resolve", config.resolve), Custom("propagate", config.propagate)], clauses=r"config-.*"),
    "C18": dict(slices=[Real("pyseq", pr(**REALPF), 60), Real("pymp", pr(**REALPF), 50), Real("dask", pr(**REALPF), 40, ignore=("actor-order",)),
                        Real("ray", pr(**REALPF), 30, ignore=("actor-order",)), Slice("simcommon", pr(**REALPF), 2, Ws=[3, 4])],
                clauses=r"(?!exit-(code|unfinalized)|hang-(exit|shutdown)|op-error-shutdown|place-).*"),
    "C19": dict(slices=[S("getlist", 3), S("getlistexc", 2), S("shared")],
                clauses=r"get-.*|hang-get|op-error-get|mpi-error|exit-early"),
    "C20": dict(slices=[S("nest", 3), S("nestact", 2), S("nestgc"), S("over")],
                clauses=r"(?!exit-(code|unfinalized)|hang-(exit|shutdown)|op-error-shutdown|place-(cycle|reserved|actors)).*"),
}
QUICK_BUDGET = 40
