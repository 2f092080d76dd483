"""python -m symx.runner <property> [--tier quick|thorough] [--case NAME]"""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from symx import ctx


def load_harness(prop):
    """every harness file that registers cases for the property"""
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            src = open(os.path.join(d, f)).read()
            if '"%s"' % prop in src:
                spec = importlib.util.spec_from_file_location("harness_" + f[:-3], os.path.join(d, f))
                m = importlib.util.module_from_spec(spec)
                sys.modules[spec.name] = m
                spec.loader.exec_module(m)
    return ctx.CASES.get(prop, {})


def needs_fit(prop):
    d = os.path.join(VERIF, "harness")
    for f in os.listdir(d):
        if f.endswith(".py"):
            src = open(os.path.join(d, f)).read()
            if '"%s"' % prop in src and "NEEDS_FIT = True" in src:
                return True
    return False


# --------------------------------------------------------------------------- #
# child: one case
# --------------------------------------------------------------------------- #
class Trace:
    """the functions of /repo that were executed symbolically"""

    def __init__(self):
        self.seen = {}

    def start(self):
        from symx import loader
        root = os.path.realpath(loader.REPO) + os.sep
        mon = sys.monitoring

        def on(code, off):
            f = os.path.realpath(code.co_filename)
            if f.startswith(root):
                self.seen.setdefault("%s:%s" % (f[len(root):], code.co_qualname), 0)
            return mon.DISABLE
        try:
            mon.use_tool_id(3, "symx")
            mon.register_callback(3, mon.events.PY_START, on)
            mon.set_events(3, mon.events.PY_START)
        except ValueError:
            pass


def run_case(prop, name, fn, opts, tier, seed, conn):
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from symx import loader, solver
    out = {"case": name}
    t0 = time.time()
    try:
        tr = Trace()
        tr.start()
        thorough = tier == "thorough"
        limit = opts.get("time", 100) * (6 if thorough else 1)
        x = ctx.Explorer(
            fn, loader.STATE["np"],
            max_paths=opts.get("max_paths", 64) * (4 if thorough else 1),
            timeouts=tuple(t * (5 if thorough else 1) for t in opts.get("timeouts", (5000, 8000, 10000))),
            levels=opts.get("levels", (1, 2, 3)),
            deadline=t0 + limit, seed=seed, feas_level3=opts.get("feas3", True))
        x.run()
        out.update(paths=x.paths, rejected=x.rejected, infeasible=x.infeasible, truncated=x.truncated,
                   branches=x.branches, functions=sorted(tr.seen), vars={k: list(v) for k, v in x.vars.items()})
        obl = [{k: r[k] for k in ("label", "elem", "status", "level", "path", "detail") if k in r} for r in x.results]
        out["obligations"] = obl
        w = ctx.Witnesses(x, seed)
        cands = []
        open_ = [r for r in x.results if r["status"] != "proved" and "goal" in r]
        seen = {}
        budget = time.time() + 25
        for r in open_:
            k = r["label"]
            if seen.get(k, 0) >= 2 or time.time() > budget:
                continue
            seen[k] = seen.get(k, 0) + 1
            good, weak = w.search(r["pc"], r["goal"], r.get("model"), want=2)
            for e in (good + weak)[:3]:
                cands.append({"env": with_choices(e, r["choices"]), "label": k, "why": "counterexample" if e in good else "path"})
        for er in x.errors[:4]:
            good, weak = w.search(er["pc"], None, want=2)
            for e in (good + weak)[:2]:
                cands.append({"env": with_choices(e, er["choices"]), "label": "exception", "why": er["type"] + ": " + er["msg"]})
        out["candidates"] = cands
        out["errors"] = [{k: e[k] for k in ("type", "msg", "tb")} for e in x.errors]
        # reachability witnesses, with the values the encoding predicts for them
        wit = []
        nwit = opts.get("witnesses", 1) * (4 if thorough else 1)
        step = max(1, len(x.path_records) // max(1, nwit))
        for pc, ch, values, labels in x.path_records[::step][:nwit]:
            good, _ = w.search(pc, None, want=1, budget=3.0)
            if good:
                ev = w.evaluator(good[0])
                pred = []
                for lab, ts in values[:400]:
                    try:
                        from symx.terms import lift
                        pred.append((lab, [ev.term(lift(t)) for t in ts[:40]]))
                    except Exception:
                        pred.append((lab, None))
                wit.append({"env": with_choices(good[0], ch), "predicted": pred, "why": "witness"})
        out["witnesses"] = wit
        out["stats"] = solver.STATS
    except BaseException as ex:
        out["crash"] = "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-2000:])
    out["wall"] = time.time() - t0
    try:
        conn.send(json.dumps(out, default=repr))
    except Exception as ex:
        conn.send(json.dumps({"case": name, "crash": "result not sent: %r" % ex}))
    conn.close()
    os._exit(0)


def with_choices(env, choices):
    e = dict(env)
    for k, v in choices.items():
        e["choice:" + k] = v
    return e


# --------------------------------------------------------------------------- #
def replay(prop, jobs, mode, timeout):
    """run the harness concretely in a fresh, unpatched process"""
    p = subprocess.Popen(
        [sys.executable, "-m", "symx.replay", "--prop", prop, "--mode", mode],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF, text=True,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1"))
    try:
        o, e = p.communicate(json.dumps(jobs), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        e += "TIMEOUT"
    res = []
    for line in o.splitlines():
        if line.startswith("RESULT "):
            res.append(json.loads(line[7:]))
    return res, e[-1500:]


def known_findings(prop):
    try:
        data = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [d for d in data.get("findings", []) if d["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.property
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    from symx import loader
    total_budget = 780 if a.tier == "quick" else 6 * 3600
    crash = None
    cases = {}
    try:
        loader.load("symbolic", fit=needs_fit(prop))
        cases = load_harness(prop)
    except Exception as ex:
        crash = traceback.format_exc()[-2500:]
    if not cases and crash is None:
        print("no harness for", prop)
        return 2
    todo = [(n, f, o) for n, (f, o) in cases.items()
            if (a.case is None or n == a.case) and (a.tier == "thorough" or not o.get("thorough"))]
    todo.sort(key=lambda c: -c[2].get("time", 100))
    results, running = [], []
    mctx = mp.get_context("fork")
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < a.jobs:
            n, f, o = todo.pop(0)
            r, w = mctx.Pipe(False)
            p = mctx.Process(target=run_case, args=(prop, n, f, o, a.tier, seed, w))
            p.start()
            w.close()
            lim = o.get("time", 100) * (6 if a.tier == "thorough" else 1) + 60
            running.append((n, p, r, time.time() + lim))
        for it in list(running):
            n, p, r, dl = it
            if r.poll(0.02):
                try:
                    results.append(json.loads(r.recv()))
                except EOFError:
                    results.append({"case": n, "crash": "child died"})
                p.join()
                running.remove(it)
            elif time.time() > dl or time.time() - t0 > total_budget:
                p.kill()
                p.join()
                results.append({"case": n, "crash": "time limit"})
                running.remove(it)
    # concrete replays
    jobs_full, jobs_red = [], []
    for r in results:
        for c in r.get("candidates", []):
            jobs_full.append({"case": r["case"], "env": c["env"], "label": c["label"], "why": c["why"]})
        opts = cases[r["case"]][1]
        for c in r.get("witnesses", []):
            if opts.get("replay", True):
                jobs_full.append({"case": r["case"], "env": c["env"], "label": None, "why": "witness"})
            jobs_red.append({"case": r["case"], "env": c["env"], "predicted": c["predicted"]})
    viol, replays, rerr = [], [], ""
    red, rederr = [], ""
    if jobs_full or jobs_red:
        chunks = [[] for _ in range(min(6, max(1, len(jobs_full))))]
        for i, j in enumerate(jobs_full):
            chunks[i % len(chunks)].append(j)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(replay, prop, c, "concrete", 600) for c in chunks if c]
            fr = ex.submit(replay, prop, jobs_red, "reduced", 300) if jobs_red else None
            for f in fs:
                res, e = f.result()
                replays += res
                rerr += e if not res else ""
            if fr:
                red, rederr = fr.result()
    kf = known_findings(prop)
    hit_kf = set()
    seen = set()
    for rp in replays:
        for f in rp.get("failures", []):
            k = next((i for i, d in enumerate(kf) if d["case"] == rp["case"] and f["label"].startswith(d["label"])), None)
            if k is not None:
                hit_kf.add(k)
                continue
            key = (rp["case"], f["label"])
            if key in seen:
                continue
            seen.add(key)
            viol.append((rp, f))
    # encoder validation: predicted values against the real code on the same grids
    nval, mism = 0, []
    for rp in red:
        nval += rp.get("compared", 0)
        for m in rp.get("mismatch", []):
            mism.append((rp["case"], m))
    obls = [(r["case"], o) for r in results for o in r.get("obligations", [])]
    proved = sum(o["status"] == "proved" for _, o in obls)
    undecided = {}
    violated = {(rp["case"], f["label"]) for rp, f in viol}
    known = {(d["case"], d["label"]) for d in kf}
    for c, o in obls:
        if o["status"] != "proved" and (c, o["label"]) not in violated:
            if any(c == kc and o["label"].startswith(kl) for kc, kl in known):
                continue
            undecided.setdefault((c, o["label"]), []).append(o.get("detail", ""))
    problems = []
    for r in results:
        if r.get("crash"):
            problems.append("case %s: %s" % (r["case"], r["crash"].strip().splitlines()[0] if not a.v else r["crash"]))
        if r.get("truncated"):
            problems.append("case %s: exploration truncated" % r["case"])
        for e in r.get("errors", []):
            problems.append("case %s: not encoded: %s: %s" % (r["case"], e["type"], e["msg"]) + (("\n" + e["tb"]) if a.v else ""))
        if not r.get("obligations") and not r.get("crash"):
            problems.append("case %s: vacuous (no obligation reached)" % r["case"])
        if not r.get("witnesses") and not r.get("crash") and r.get("paths"):
            problems.append("case %s: no concrete witness of a path" % r["case"])
    if crash:
        problems.append("import: " + crash.splitlines()[-1])
    for c, m in mism:
        problems.append("case %s: encoder mismatch %s" % (c, m))
    if (jobs_full and not replays):
        problems.append("concrete replay did not run: " + rerr[-300:])
    for (c, l), d in undecided.items():
        problems.append("case %s: UNDECIDED %s: %s" % (c, l, d[0] if a.v else str(d[0])[:160]))
    problems = list(dict.fromkeys(problems))
    inapplicable = [rp for rp in replays if rp.get("inapplicable")]
    for rp in inapplicable[:5]:
        problems.append("case %s: replay not applicable: %s" % (rp["case"], rp["inapplicable"]))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "by_level": {}}
    for r in results:
        s = r.get("stats")
        if s:
            for k in ("queries", "unsat", "sat", "unknown", "time"):
                stats[k] += s[k]
            for k, v in s["by_level"].items():
                stats["by_level"][str(k)] = stats["by_level"].get(str(k), 0) + v
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    from symx.npsym import GRID
    harness_doc = getattr(sys.modules.get("harness_doc"), "x", None)
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the real functions of /repo on symbolic inputs; every obligation is "
                           "the unsatisfiability (z3) of path condition and negated property over all values of the "
                           "inputs in the stated boxes. Counterexamples are replayed on the unpatched code.",
            "functions_encoded": funcs,
            "cases": len(results),
            "paths_explored": sum(r.get("paths", 0) for r in results),
            "symbolic_branches": sum(r.get("branches", 0) for r in results),
            "obligations": len(obls),
            "discharged": proved,
            "undecided": sorted("%s/%s" % k for k in undecided),
            "not_encoded_or_truncated": [p for p in problems if "UNDECIDED" not in p][:20],
            "queries": stats["queries"],
            "queries_unsat": stats["unsat"], "queries_sat": stats["sat"], "queries_unknown": stats["unknown"],
            "queries_by_level": stats["by_level"],
            "solver_s": round(stats["time"], 3),
            "reachability_witnesses": sum(len(r.get("witnesses", [])) for r in results),
            "concrete_replays": len(replays),
            "encoder_values_compared": nval,
            "encoder_mismatches": len(mism),
            "bounds": {
                "grids": "integration grids of 50/100/200/other points are executed with 2/3/4/5+ points, same end points",
                "boxes": {r["case"]: r.get("vars") for r in results},
            },
            "samples": [{"case": r["case"], "witness": r["witnesses"][0]["env"]} for r in results if r.get("witnesses")][:3],
            "per_case": [{"case": r["case"], "paths": r.get("paths"), "obligations": len(r.get("obligations", [])), "wall_s": round(r.get("wall", 0), 2)} for r in results],
        },
        "assumptions": [
            "floats are read as reals (constants within 4e-12 relative are identified; equality means within 1e-9 of the summed magnitudes)",
            "the luminosity distance and the scipy interpolators are arbitrary functions (splines pass through their nodes)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=repr)
    print("property %s tier %s: %d cases, %d paths, %d obligations, %d discharged, %d queries (%.1f s in z3), %d replays, %d values validated, %.1f s"
          % (prop, a.tier, len(results), ev["coverage"]["paths_explored"], len(obls), proved, stats["queries"], stats["time"], len(replays), nval, time.time() - t0))
    for p in problems[:200 if a.v else 25]:
        print("NOTE", p)
    if a.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0)):
            print("  case %-40s paths %s obl %s wall %.1f" % (r["case"], r.get("paths"), len(r.get("obligations", [])), r.get("wall", 0)))
    for i in sorted(hit_kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[i]["what"]))
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (rp, f) in enumerate(viol[:10]):
            path = os.path.join(d, "%s-%s-%d.json" % (prop, rp["case"], i))
            json.dump({"property": prop, "case": rp["case"], "env": rp["env"], "failure": f,
                       "rerun": "cd /verif && ./check --replay " + path}, open(path, "w"), indent=1)
            print("  %s: %s: %s" % (rp["case"], f["label"], f["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
