#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough] | --setup | --replay FILE

Decides one property by symbolic execution of /repo's current source and SMT queries.
Exit 0: held on everything explored; 1: VIOLATION (replayed on the real code)."""
import importlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.chdir(ROOT)
from symgo import build, solve            # noqa: E402
from symgo.exec import Program            # noqa: E402
from checks import oracle                 # noqa: E402

CTX = None


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.thorough = tier == "thorough"
        self.progs = {}
        self.drivers = {}
        self.t0 = time.time()
        self.cache = {}

    def budget(self):
        return 3000 if self.thorough else 420


def _noenc(ctx, why):
    return {"status": "unknown", "detail": why}


def guarded(what, f):
    try:
        return f() or []
    except Exception as e:
        print("INCONCLUSIVE %s: %s: %s" % (what, type(e).__name__, e))
        return []


def _goal(job):
    i, (name, fn, kw) = job
    solve.STATS = solve.Stats()
    t = time.time()
    try:
        r = fn(CTX, **kw)
    except Exception as e:
        r = {"status": "unknown", "detail": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:]}
    r.setdefault("cases", [])
    if r["status"] != "proved" and hasattr(CTX, "fev"):
        fev = CTX.fev
        try:
            if "limb access outside" in str(r.get("detail", "")):
                fev.FExec.LIMBS = True
                try:
                    r["cases"] += fn(CTX, **kw).get("cases", [])
                except Exception:
                    pass
            r["hints"] = fev.hints()
        except Exception as e:
            r["detail"] = "%s (%s)" % (r.get("detail", ""), e)
    r["name"] = name
    r["wall"] = time.time() - t
    r["stats"] = solve.STATS.dump()
    return i, r


def _entry(conn, job):
    try:
        r = _goal(job)[1]
    except BaseException:
        r = failed(job[1][0], traceback.format_exc()[-800:])
    conn.send(r)
    conn.close()


def failed(name, why):
    return {"status": "unknown", "detail": why, "cases": [], "name": name, "wall": 0, "stats": solve.Stats().dump()}


def run_goals(goals, nproc, deadline):
    """each goal in a forked process, killed at the deadline"""
    from multiprocessing.connection import wait
    res = {}
    todo = []
    for i, (name, fn, kw) in enumerate(goals):
        kw = dict(kw)
        w = kw.pop("_w", 0)
        todo.append((-w, i, (name, fn, kw)))
    todo.sort(key=lambda x: x[:2])
    procs = {}
    while todo or procs:
        while todo and len(procs) < nproc and time.time() < deadline:
            _, i, g = todo.pop(0)
            rd, wr = mp.Pipe(False)
            pr = mp.Process(target=_entry, args=(wr, (i, g)), daemon=True)
            pr.start()
            wr.close()
            procs[rd] = (i, pr, g[0])
        for rd in wait(list(procs), timeout=0.5):
            i, pr, name = procs.pop(rd)
            try:
                res[i] = rd.recv()
            except EOFError:
                res[i] = failed(name, "the process died (memory limit)")
            pr.join()
        if time.time() > deadline:
            for rd, (i, pr, name) in procs.items():
                pr.kill()
                res[i] = failed(name, "time limit")
            procs = {}
            for _, i, g in todo:
                res[i] = failed(g[0], "not started: time limit")
            todo = []
    return [res[i] for i in range(len(goals))]


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line)
    return out


def main():
    global CTX
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        build.ssagen()
        return 0
    if args[:1] == ["--replay"]:
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(build.BUILD, "run_%s_%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return check(prop, tier, seed, work, args)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work, args):
    global CTX
    t0 = time.time()
    CTX = ctx = Ctx(prop, tier, seed, work)
    mod = importlib.import_module("checks." + prop.lower())
    ctx.fev = importlib.import_module("checks.fev")
    build.ssagen()
    from concurrent.futures import ThreadPoolExecutor

    def prep(tag):
        path = build.dump(tag, work)
        d = build.driver(tag, work, json.load(open(path)))
        return path, d
    try:
        with ThreadPoolExecutor(2) as tp:
            out = list(tp.map(prep, build.TAGS))
    except build.BuildError as e:
        print("ERROR: cannot build /repo: %s" % e)
        return 2
    for tag, (path, d) in zip(build.TAGS, out):
        ctx.progs[tag] = Program(path)
        ctx.drivers[tag] = build.Driver(d)
    if hasattr(mod, "drivers"):
        guarded("driver", lambda: mod.drivers(ctx))
    try:
        goals = mod.goals(ctx)
    except Exception as e:
        goals = [("encoding", _noenc, {"why": "%s: %s" % (type(e).__name__, e)})]
    if "--only" in args:
        pat = args[args.index("--only") + 1]
        goals = [g for g in goals if pat in g[0]]
    if hasattr(mod, "prepare"):
        guarded("prepare", lambda: mod.prepare(ctx))
    deadline = t0 + ctx.budget()
    if "-v" in args:
        print("goals:", len(goals), "setup %.1fs" % (time.time() - t0))
    res = run_goals(goals, int(os.environ.get("VERIF_JOBS", "8")), deadline)
    ctx.hints = []
    for vs in itertools.zip_longest(*[r.get("hints", [])[:120] for r in res]):
        ctx.hints += [v for v in vs if v is not None and v not in ctx.hints]
    ctx.long = [v for v in ctx.hints if v >> 256][:200]           # values of 64-byte strings
    ctx.hints = [v for v in ctx.hints if not v >> 256][:300]
    # concrete side: solver counterexamples first, then the validation pool
    violations, validated, unconfirmed = [], 0, []
    pool = guarded("pool", lambda: mod.pool(ctx)) if hasattr(mod, "pool") else []
    ncand = 0
    left = [r for r in res if r["status"] != "proved"]
    more = guarded("search", lambda: mod.search(ctx, left)) if left and hasattr(mod, "search") else []
    for kind, name, cases in [("solver", r["name"], r["cases"]) for r in res] + [("pool", "pool", pool), ("pool", "search", more)]:
        if not cases:
            continue
        bad, n = oracle.judge(ctx, cases)
        ncand += len(cases) if kind == "solver" else 0
        validated += n
        for c, why in bad:
            violations.append((kind, name, c, why))
    status = {}
    for r in res:
        status[r["status"]] = status.get(r["status"], 0) + 1
    known = known_findings(prop)
    for k in known:
        print(k)
    ids = [k.split("#")[1].split()[0] for k in known if "#" in k]
    violations = [v for v in violations if v[2].get("finding") not in ids or not v[2].get("finding")]
    stats = solve.Stats()
    for r in res:
        stats.merge(r["stats"])
    funcs = sorted({f for r in res for f in r.get("functions", [])})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "FORM", "symbolic execution of the go/ssa form of /repo's current source (default build and -tags forcegeneric); ") +
                           "each obligation is an SMT query over all inputs within the bounds. " + getattr(mod, "EXPLAIN", ""),
            "obligations": len(res), "discharged": status.get("proved", 0),
            "refuted_by_solver": status.get("refuted", 0), "inconclusive": status.get("unknown", 0),
            "sub_obligations": sum(r.get("sub", 1) for r in res),
            "solver_queries": stats.queries, "solver_unsat": stats.unsat, "solver_sat": stats.sat, "solver_unknown": stats.unknown,
            "solver_seconds": round(stats.time, 2), "queries_by_theory": stats.by,
            "functions_encoded": len(funcs), "functions": funcs[:200],
            "bounds": getattr(mod, "BOUNDS", ""),
            "encoding_validated_on_real_runs": validated,
            "solver_counterexamples_replayed": ncand,
            "samples": [{"goal": r["name"], "status": r["status"], "detail": str(r.get("detail", ""))[:300], "seconds": round(r["wall"], 2)} for r in res][:400],
        },
        "assumptions": getattr(mod, "ASSUME", []) + oracle.ASSUME,
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 2),
    }
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, "%s.json" % prop), "w"), indent=1)
    if "-v" in args or "--only" in args:
        for r in res:
            print("  %-9s %6.1fs %s %s" % (r["status"], r["wall"], r["name"], str(r.get("detail", ""))[:300] if r["status"] != "proved" else ""))
            if "-vv" in args and r.get("trace"):
                print(r["trace"])
    for r in res:
        if r["status"] != "proved":
            print("%s goal=%s %s" % ("REFUTED" if r["status"] == "refuted" else "INCONCLUSIVE", r["name"], str(r.get("detail", "")).replace("\n", " ")[:200]))
    print("%s %s: %d obligations, %d discharged, %d queries (%.1fs solver), %d replays, %.1fs" % (
        prop, tier, len(res), status.get("proved", 0), stats.queries, stats.time, validated, time.time() - t0))
    if violations:
        kind, name, c, why = violations[0]
        path = os.path.join(evd, "%s.replay.json" % prop)
        json.dump({"property": prop, "found_by": kind, "goal": name, "case": c, "why": why,
                   "others": [[k, n, w] for k, n, _, w in violations[1:20]]}, open(path, "w"), indent=1)
        print("counterexample (%s, goal %s): %s" % (kind, name, why))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def replay(path):
    """re-runs a recorded counterexample on the current tree"""
    global CTX
    d = json.load(open(path))
    work = os.path.join(build.BUILD, "replay_%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        CTX = ctx = Ctx(d["property"], "quick", 1, work)
        for tag in build.TAGS:
            p = build.dump(tag, work)
            ctx.progs[tag] = Program(p)
            ctx.drivers[tag] = build.Driver(build.driver(tag, work, json.load(open(p))))
        mod = importlib.import_module("checks." + d["property"].lower())
        if hasattr(mod, "drivers"):
            mod.drivers(ctx)
        bad, _ = oracle.judge(ctx, [d["case"]])
        for c, why in bad:
            print("reproduced:", why)
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
