"""Runs the campaigns of one property and reports."""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import sys
import time
import traceback

import campaign
import checks
import gen
import paths
import prog as P
import real
import simpool

SOFT = ("wall", "stuck", "steps", "infra", "spin")
ROUND = 160  # simulated runs per round


class Ctx:
    def __init__(self, pid, tier, seed, budget, only=None):
        self.pid, self.tier, self.seed, self.budget = pid, tier, seed, budget
        spec = checks.CHECKS[pid]
        self.clauses = re.compile(r"^(?:%s)$" % spec["clauses"])
        self.slices = [s for s in spec["slices"] if only is None or s.name == only]
        self.t0 = time.time()
        self.states = 0
        self.trans = 0
        self.traces = 0
        self.events = 0
        self.per = {}
        self.samples = []
        self.other = {}
        self.infra = 0
        self.found = []  # (kind, description, payload)
        self.twisted = 0
        self.known = []  # listed findings that were seen
        self.pool = None

    def left(self):
        return self.budget - (time.time() - self.t0)

    def count(self, name, **kw):
        d = self.per.setdefault(name, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v


def relevant(ctx, bad, ignore=()):
    """First relevant violation; bad: [(index, [clauses])]."""
    rel, other = [], []
    for idx, cl in bad:
        for c in cl:
            if c in ignore:
                continue
            (rel if ctx.clauses.match(c) else other).append((idx, c))
    return rel, other


def gen_round(ctx, slices, k):
    """Jobs of one round: list of (slice, job)."""
    total = sum(s.weight for s in slices)
    scheds = 2 if ctx.tier == "quick" else 3

    def one(i, s):
        n = max(2, int(ROUND * s.weight / total / scheds))
        return [(s, j) for j in campaign.make_jobs(s.pf, n, scheds, ctx.seed * 1000003 + k * 101 + i, tail=s.tail, place=s.place,
                                                   noworker=s.noworker, **s.over)]

    with cf.ThreadPoolExecutor(4) as ex:
        parts = list(ex.map(lambda a: one(*a), enumerate(slices)))
    jobs = [x for p in parts for x in p]
    random.Random(k).shuffle(jobs)
    return jobs


def simjob(job, **extra):
    cfg = dict(job["cfg"])
    cfg.update(extra)
    cfg["prog"] = job["prog"]
    return {"main": ("udriver", "main"), "cfg": cfg}


def item(job, res):
    return {"prog": P.flatten(job["prog"], job["cfg"]["W"], job.get("place", False), job.get("noworker", False)), "ev": P.events(res)}


def run_round(ctx, sjobs, deadline):
    """Execute jobs; returns list of (slice, job, res)."""
    out = []
    for i, res in ctx.pool.map([simjob(j) for _, j in sjobs], deadline=deadline):
        if res is not None:
            out.append((sjobs[i][0], sjobs[i][1], res))
    soft = [x for x in out if x[2]["status"] in SOFT]
    if soft:
        out = [x for x in out if x[2]["status"] not in SOFT]
        for s, j, r in soft[:6]:
            for _, r2 in ctx.pool.map([simjob(j, wall=240, max_steps=400000, spin_wall=100)]):
                r = r2
            if r["status"] == "infra":
                ctx.infra += 1
                ctx.infra_detail = r.get("detail")
            else:
                out.append((s, j, r))
    return out


def corrupt(items):
    """Recorded histories with one event falsified, and the rule each of them breaks."""
    out = []
    for n, it in enumerate(items):
        ev = it["ev"]
        it = dict(it, of=n)
        for i, e in enumerate(ev):
            if len(out) >= 24:
                return out
            done = {x for _, x in out[-3:]}
            if e["e"] == "start" and "start-twice" not in done:
                out.append((dict(it, ev=ev[: i + 1] + [e] + ev[i + 1 :]), "start-twice"))
            elif e["e"] == "getr" and e.get("v") and "get-value" not in done:
                out.append((dict(it, ev=ev[:i] + [dict(e, v=[e["v"][0] + 64] + e["v"][1:])] + ev[i + 1 :]), "get-value"))
            elif e["e"] == "waitr" and e.get("rdy") and "wait-partition" not in done:
                out.append((dict(it, ev=ev[:i] + [dict(e, rdy=e["rdy"][1:])] + ev[i + 1 :]), "wait-partition"))
            elif e["e"] == "subr" and "shape" not in done:
                out.append((dict(it, ev=ev[:i] + [dict(e, n=e["n"] + 1)] + ev[i + 1 :]), "shape"))
    return out


def judge(ctx, recs):
    """Validate histories with TLC; record violations."""
    if not recs:
        return
    items = [item(j, r) for _, j, r in recs]
    twisted = [] if ctx.twisted else corrupt(items)
    bad, (gen_, dist) = P.validate(items + [it for it, _ in twisted], workers=4)
    for (it, want), b in zip(twisted, bad[len(items):]):
        # the binding works: a history that cannot be is rejected, by the rule it breaks
        if bad[it["of"]]:
            continue
        if want not in {c for _, cl in b for c in cl}:
            raise RuntimeError("a corrupted history is accepted (%s): %s" % (want, it))
        ctx.twisted += 1
    ctx.states += dist
    ctx.trans += gen_
    for (s, j, r), it, b in zip(recs, items, bad):
        ctx.traces += 1
        ctx.events += len(it["ev"])
        ctx.count(s.name, runs=1, steps=r["steps"])
        rel, other = relevant(ctx, b)
        for _, c in other:
            ctx.other[c] = ctx.other.get(c, 0) + 1
        if rel:
            ctx.found.append(dict(kind="sim", clauses=sorted({c for _, c in rel}), slice=s.name, job=j, status=r["status"], detail=r.get("detail"),
                                  pending=r.get("pending"), events=it["ev"], at=[i for i, _ in rel], outputs=r.get("outputs")))
        elif len(ctx.samples) < 2 and r["status"] == "done":
            ctx.samples.append({"slice": s.name, "program": j["prog"]["ops"], "strategy": j["cfg"]["strategy"], "workers": j["cfg"]["W"],
                                "history_events": len(it["ev"]), "scheduling_steps": r["steps"], "history_tail": it["ev"][-4:]})


def sims(ctx):
    slices = [s for s in ctx.slices if s.kind == "sim"]
    if not slices:
        return
    ctx.pool = ctx.pool or simpool.Pool(8)
    ex = cf.ThreadPoolExecutor(3)
    try:
        k = 0
        nxt = ex.submit(gen_round, ctx, slices, 0)
        pend = []
        while True:
            jobs = nxt.result()
            k += 1
            nxt = ex.submit(gen_round, ctx, slices, k)
            recs = run_round(ctx, jobs, None)
            pend.append(ex.submit(judge, ctx, recs))
            for p in [p for p in pend if p.done()]:
                p.result()
                pend.remove(p)
            if ctx.found or ctx.left() <= 0:
                break
        for p in pend:
            p.result()
        ctx.count("rounds", n=k)
    finally:
        ex.shutdown(cancel_futures=True)


def reals(ctx):
    for s in [s for s in ctx.slices if s.kind == "real"]:
        n = s.n if ctx.tier == "quick" else s.n * 6
        progs = [{"ops": p["ops"] + [{"o": "settle"}]} for p in gen.generate(s.pf, n, ctx.seed * 7 + 3)]
        res, err = real.run(s.backend, progs, s.cpus)
        if err:
            ctx.infra += 1
            ctx.infra_detail = "%s: %s" % (s.backend, err)
            ctx.count(s.name, start_failures=1)
            # a backend that cannot even start is a failure of the code under test only if it fails again
            res2, err2 = real.run(s.backend, progs[:1], s.cpus)
            if err2:
                ctx.found.append(dict(kind="real", backend=s.backend, cpus=s.cpus, clauses=["hang-init"], slice=s.name, detail=err2, program=progs[0]))
                continue
            res, err = real.run(s.backend, progs, s.cpus)
        its = real.items(progs, res, s.cpus)
        if not its:
            continue
        bad, (g, d) = P.validate(its)
        ctx.states += d
        ctx.trans += g
        for p, r, it, b in zip(progs, res, its, bad):
            ctx.traces += 1
            ctx.events += len(it["ev"])
            ctx.count(s.name, runs=1)
            rel, other = relevant(ctx, b, s.ignore)
            if rel and any(c.startswith("hang") for _, c in rel):
                # timing: confirm on its own
                r2, _ = real.run(s.backend, [p], s.cpus, prog_timeout=90)
                if r2 and r2[0]["status"] == "done":
                    b2, _ = P.validate(real.items([p], r2, s.cpus))
                    rel, other = relevant(ctx, b2[0], s.ignore)
            for _, c in other:
                ctx.other[c] = ctx.other.get(c, 0) + 1
            if rel:
                ctx.found.append(dict(kind="real", backend=s.backend, cpus=s.cpus, clauses=sorted({c for _, c in rel}), slice=s.name, program=p,
                                      events=it["ev"], at=[i for i, _ in rel], text=r.get("text")))
                if any(c.startswith("hang") for _, c in rel):
                    break  # every further hang takes long to confirm
        if ctx.found:
            return


def customs(ctx):
    for s in [s for s in ctx.slices if s.kind == "custom"]:
        s.fn(ctx, s)
        if ctx.found:
            return


def report(ctx, err=None):
    wall = time.time() - ctx.t0
    os.makedirs(os.path.join(paths.VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": {
            "states": ctx.states, "transitions": ctx.trans, "traces_validated_against_impl": ctx.traces, "samples": ctx.samples or [{"none": True}],
            "history_events": ctx.events, "per_slice": ctx.per, "clauses": ctx.clauses.pattern,
            "clauses_of_other_properties_seen": ctx.other, "machinery_failures": ctx.infra, "corrupted_histories_rejected": ctx.twisted, "exhaustive": False,
        },
        "wall_s": round(wall, 2), "violations": len(ctx.found),
        "assumptions": ["the simulator implements MPI's matching, progress and window semantics", "user functions are deterministic and terminate",
                        "histories are recorded faithfully by the driver (sim/udriver.py)"],
    }
    with open(os.path.join(paths.VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k))
    if ctx.found:
        d = os.path.join(paths.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        best = min(ctx.found, key=lambda r: len(json.dumps(r.get("job", r.get("program", r)))))
        path = os.path.join(d, ctx.pid + ".json")
        best["property"] = ctx.pid
        with open(path, "w") as f:
            json.dump(best, f, indent=1, default=str)
        seen = {}
        for r in ctx.found:
            key = (r["slice"], tuple(r["clauses"]))
            seen[key] = seen.get(key, 0) + 1
        for (sl, cl), n in sorted(seen.items()):
            print("  %d x %s: %s" % (n, sl, ", ".join(cl)))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
        return 1
    if err:
        print("ERROR", err)
        return 2
    if ctx.traces == 0 or ctx.infra > max(5, 0.3 * ctx.traces):
        print("ERROR: nothing could be executed:", getattr(ctx, "infra_detail", ""))
        return 2
    print("OK property=%s traces=%d events=%d states=%d wall=%.1fs%s" % (ctx.pid, ctx.traces, ctx.events, ctx.states, wall,
          " (seen, other properties: %s)" % ctx.other if ctx.other else ""))
    return 0


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    ctx = Ctx(pid, "quick", 1, 0)
    if rec["kind"] == "sim":
        ctx.pool = simpool.Pool(1)
        try:
            for _, r in ctx.pool.map([simjob(rec["job"], trace=True)]):
                it = item(rec["job"], r)
                bad, _ = P.validate([it])
                for i, e in enumerate(it["ev"], 1):
                    v = [c for j, cl in bad[0] for c in cl if j == i]
                    print(i, e, "   <-- " + ",".join(v) if v else "")
                print("status", r["status"], r.get("detail"))
                for l in r.get("pending") or []:
                    print("   ", l)
                for p, t in r["outputs"].items():
                    print("--- output of process", p)
                    print(t[-1500:])
                return 1 if relevant(ctx, bad[0])[0] else 0
        finally:
            ctx.pool.close()
    if rec["kind"] == "real":
        res, err = real.run(rec["backend"], [rec["program"]], rec["cpus"])
        it = real.items([rec["program"]], res, rec["cpus"])
        bad, _ = P.validate(it)
        for i, e in enumerate(it[0]["ev"], 1):
            v = [c for j, cl in bad[0] for c in cl if j == i]
            print(i, e, "   <-- " + ",".join(v) if v else "")
        return 1 if bad[0] else 0
    print(json.dumps(rec, indent=1)[:5000])
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    budget = a.budget or (checks.QUICK_BUDGET if tier == "quick" else 600)
    ctx = Ctx(a.id, tier, paths.SEED, budget, a.only)
    err = None
    try:
        for f in (customs, sims, reals):
            f(ctx)
            if ctx.found:
                break
    except Exception:
        err = traceback.format_exc()
        sys.stderr.write(err)
    finally:
        if ctx.pool:
            ctx.pool.close()
    return report(ctx, err)
