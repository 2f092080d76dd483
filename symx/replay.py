"""Concrete run of harnesses at given inputs, with numpy / astropy untouched.

stdin: list of {case, env, predicted?}; stdout: one RESULT line per job.
`python -m symx.replay --file replays/x.json` re-runs a stored violation.
"""
import argparse
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from symx import ctx, loader, runner


def in_harness(tb):
    """the exception comes from the harness itself, not from a call into /repo"""
    files = []
    while tb is not None:
        files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    root = os.path.realpath(loader.REPO) + os.sep
    return not any(f.startswith(root) for f in files)


def run_one(cases, job, np, reduced=False):
    from symx.npsym import GRID
    GRID.reset()
    fn, opts = cases[job["case"]]
    s = ctx.Concrete(job["env"], np, rtol=opts.get("rtol", 1e-6))
    out = {"case": job["case"], "env": job["env"]}
    try:
        fn(s)
    except ctx.StopCase:
        pass
    except ctx.Reject as ex:
        out["rejected"] = str(ex)
    except Exception as ex:
        if in_harness(ex.__traceback__):
            out["inapplicable"] = "%s: %s" % (type(ex).__name__, ex)
        else:
            s._fail("exception", "%s: %s" % (type(ex).__name__, ex))
            out["tb"] = traceback.format_exc()[-1500:]
    out["failures"] = s.failures if not out.get("rejected") else []
    out["checked"] = s.checked
    if reduced:
        out["compared"], out["mismatch"] = compare(job.get("predicted") or [], s.values)
        out["failures"] = []
    return out


def compare(pred, got):
    n, bad = 0, []
    for (l1, p), (l2, v) in zip(pred, got):
        if l1 != l2:
            bad.append("sequence of checks differs: %s %s" % (l1, l2))
            break
        if p is None or v is None:
            continue
        for x, y in zip(p, v):
            if x != x or abs(x) == float("inf"):
                continue
            n += 1
            if not abs(x - y) <= 1e-5 * max(abs(x), abs(y)) + 1e-280:
                bad.append("%s: encoded %r real %r" % (l1, x, y))
                break
    return n, bad[:5]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--mode", default="concrete")
    ap.add_argument("--file")
    a = ap.parse_args()
    if a.file:
        d = json.load(open(a.file))
        a.prop, jobs = d["property"], [d]
    else:
        jobs = json.load(sys.stdin)
    np = loader.load(a.mode, fit=runner.needs_fit(a.prop))
    cases = runner.load_harness(a.prop)
    import numpy
    numpy.seterr(all="ignore")
    bad = False
    for j in jobs:
        r = run_one(cases, j, np, a.mode == "reduced")
        bad |= bool(r["failures"])
        if a.file:
            for f in r["failures"]:
                print("VIOLATED %s: %s" % (f["label"], f["detail"]))
            print(r.get("tb", ""))
        else:
            print("RESULT " + json.dumps(r, default=repr), flush=True)
    return 1 if a.file and bad else 0


if __name__ == "__main__":
    sys.exit(main())
