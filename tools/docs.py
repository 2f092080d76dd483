"""writes properties.jsonl and MANIFEST.json from one list:  python tools/docs.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python code + z3 (QF_NRA/QF_LRA over normalised terms), counterexamples replayed"
NOTE = ("Every obligation is decided by z3 for all values of the inputs in the boxes recorded in the evidence, on bounded "
        "integration grids (2-5 points, same end points and distinct sizes kept distinct), over the reals (rounding is not "
        "modelled). Trusted: the interpreter's model of numpy/astropy.units (cross-checked against the real libraries on "
        "every run at reachable witnesses), z3, the stubs named in the evidence assumptions. ")

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note))


exec(open(os.path.join(ROOT, "tools", "properties_src.py")).read())

NOT_APPLICABLE = [d for d in globals().get("NA", [])]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    na = {d["property"] for d in NOT_APPLICABLE}
    m = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./check %s --tier quick" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH,
            "level": "other",
            "level_note": NOTE + p["note"],
        } for p in P if p["id"] not in na],
        "not_applicable": NOT_APPLICABLE,
        "notes": "The code of /repo is imported and executed as it is on every run; no hook is needed in /repo. "
                 "known_findings.json lists genuine defects that were recorded or repaired.",
    }
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
