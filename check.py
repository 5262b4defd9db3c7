#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source.

1. proof: interpret the current source of the functions under contract, generate the obligations and
   discharge them (engine/, contracts/);
2. bounded: execute the contracts on the real code (concrete/), as stand-in for what the verifier cannot
   reach, as cross-check of the assumed contracts and as search for the failing input of a failed obligation.

exit 0: held; exit 1: a VIOLATION line was printed.
"""
import argparse
import ast
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PY = os.environ.get("LATTPY_PYTHON", "/opt/venv/bin/python")
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(HERE, "evidence"))

GENERAL = [
    "floats are treated as exact reals and 64-bit integers as mathematical integers (narrower integer types carry their range and give obligations)",
    "the contracts of the numpy, scipy and Python built-in functions (engine/npm.py, engine/interp.py) are assumed; they are exercised by the bounded execution of the same contracts on the real libraries",
    "the interpreter and obligation generator of engine/ and the solvers z3 and cvc5 are trusted",
    "array extents, site and neighbor numbers are unbounded; the dimension ranges over 1, 2, 3 and the number of atoms over the values listed in the variants",
]


def source_hashes(repo=os.environ.get("LATTPY_REPO", "/repo")):
    """Hashes of the syntax trees of all functions, and of what is left of each module (comments, layout and
    docstrings do not count)."""
    out = {}
    d = os.path.join(repo, "lattpy")
    h = lambda t: hashlib.sha256(ast.dump(t).encode()).hexdigest()[:16]

    def visit(t, q):
        body = []
        for n in t.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                visit(n, f"{q}.{n.name}")
            elif not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                body.append(n)
        t.body = body
        out[q if isinstance(t, ast.FunctionDef) else q + ".<body>"] = h(t)

    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py") and fn != "_version.py":
            with open(os.path.join(d, fn)) as f:
                try:
                    visit(ast.parse(f.read()), fn[:-3])
                except SyntaxError:
                    out[fn] = "unparsable"
    return out


def reference():
    try:
        with open(os.path.join(HERE, "tools", "reference.json")) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


def concrete_start(prop, tier, seed, budget, out):
    return subprocess.Popen([PY, "-B", os.path.join(HERE, "concrete", "run.py"), prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out],
                            cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)


def concrete_wait(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return {"checks": {}, "violations": [], "cases": 0, "wall_s": limit, "error": "the bounded execution did not end within its limit"}
    try:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        return r
    except (OSError, ValueError):
        return {"checks": {}, "violations": [], "cases": 0, "wall_s": 0, "error": (txt or "")[-1500:]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    quick = a.tier != "thorough"
    out = os.path.join(EVID, f".concrete_{a.prop}_{os.getpid()}.json")
    p = concrete_start(a.prop, "thorough", a.seed, 60 if quick else 300, out)

    from engine import vc
    import contracts  # noqa: F401
    res = vc.run_prop(a.prop, a.tier, tmo=10 if quick else 30, budget=200 if quick else 600, total=300 if quick else 1500)
    con = concrete_wait(p, out, 200 if quick else 900)

    obls = [dict(o, harness=r["harness"], variant=r["variant"]) for r in res for o in r["obls"]]
    refuted = [o for o in obls if o["status"] == "refuted"]
    open_ = [o for o in obls if o["status"] == "unknown"]
    # an obligation the back ends could not discharge counts as failed, except if none of the code it comes from
    # differs from the code for which all of them were discharged when the contracts were written (then it is the
    # machine, not the code)
    now, ref = source_hashes(), reference()
    changed = {k for k in set(now) | set(ref) if now.get(k) != ref.get(k)}
    edited = lambda r: any(q in changed or any(c.startswith(q + ".") for c in changed) for q in set(r["inlined"]) | set(r["funcs"])) or any(c.endswith("<body>") for c in changed)
    failing = refuted + [dict(o, harness=r["harness"], variant=r["variant"]) for r in res if r["status"] == "ok" and edited(r)
                         for o in r["obls"] if o["status"] == "unknown" and o["note"] != "budget"]
    undecided = [{"harness": r["harness"], "variant": r["variant"], "why": r["status"]} for r in res if r["status"] != "ok"]
    extra = []
    if not con["violations"] and (refuted or open_ or undecided or con.get("error") or not quick):
        # look harder for a failing input
        for s in range(a.seed + 1000, a.seed + (3000 if quick else 9000), 1000):
            if quick and time.time() - t0 > 600:
                break
            o2 = out + f".{s}"
            r2 = concrete_wait(concrete_start(a.prop, "thorough", s, 80 if quick else 300, o2), o2, 140 if quick else 600)
            extra.append({"seed": s, "cases": r2["cases"], "violations": len(r2["violations"])})
            con["cases"] += r2["cases"]
            if r2["violations"]:
                con["violations"] = r2["violations"]
                break

    proved = sum(o["status"] == "proved" for o in obls)
    backends = {}
    for o in obls:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    funcs = sorted({f for r in res for f in r["funcs"]})
    assumed = sorted({x for r in res for x in r.get("assumed", [])})
    inlined = sorted({x for r in res for x in r.get("inlined", [])})
    level = "proof" if vc.REG.get(a.prop) else "exploration"
    samples = [f'{o["harness"]} {o["variant"] or ""}: {o["name"]} [{o["status"]}, {o["backend"]}, {o["s"]} s]' for o in obls if o["kind"] == "post"][:12]
    ev = {
        "property": a.prop, "tier": "quick" if quick else "thorough", "seed": a.seed, "level": level,
        "coverage": {
            "obligations": len(obls), "discharged": proved,
            "checker_cmd": f"python3-vt check.py {a.prop} --tier {a.tier}",
            "trusted_base": GENERAL,
            "functions_under_contract": funcs,
            "functions_interpreted": inlined,
            "backends": backends,
            "solver_s": round(sum(o["s"] for o in obls), 2),
            "paths": sum(r["paths"] for r in res),
            "harnesses": [{"name": r["harness"], "variant": r["variant"], "status": r["status"], "obligations": len(r["obls"]), "discharged": sum(o["status"] == "proved" for o in r["obls"]), "reachable": r.get("reachable")} for r in res],
            "undischarged": [{k: o[k] for k in ("harness", "variant", "name", "loc", "status", "note")} for o in refuted + open_][:40],
            "undecided_harnesses": undecided,
            "bounded": {"what": "contracts executed on the real code with generated inputs (bounded, not counted as proved)", "cases": con["cases"], "checks": con["checks"], "extended_search": extra, **({"error": con["error"]} if con.get("error") else {})},
            "evaluations": con["cases"], "distinct_nontrivial": con["cases"],
            "rule": "one generated input per (contract, seed, case number); every case executes the function under contract",
            "samples": samples,
        },
        "assumptions": assumed,
        "wall_s": 0, "violations": 0,
    }
    lines = []
    replay = os.path.join(EVID, f"replay_{a.prop}.json")
    if os.path.exists(replay):
        os.unlink(replay)
    failed = [{k: o[k] for k in ("harness", "variant", "name", "kind", "loc", "status", "backend", "note")} for o in failing]
    if con["violations"]:
        v = con["violations"][0]
        rec = {"property": a.prop, "case": v["case"], "clause": v["clause"], "input": v["input"], "failed_obligations": failed,
               "undecided": undecided, "how": f"{PY} concrete/run.py --replay {replay}", "all": con["violations"][:10]}
        if "traceback" in v:
            rec["traceback"] = v["traceback"]
        json.dump(rec, open(replay, "w"), indent=1)
        print(f"failing input ({v['case']['check']}): {v['clause']}"[:1000])
        lines.append(f"VIOLATION property={a.prop} replay={replay}")
    elif failing:
        json.dump({"property": a.prop, "failed_obligations": failed, "undecided": undecided,
                   "verifier_output": [o["note"] for o in failing][:10]}, open(replay, "w"), indent=1)
        for o in failing[:5]:
            print(f"failed obligation ({o['status']}): {o['harness']} {o['variant']}: {o['name']} at {o['loc']}")
        lines.append(f"VIOLATION property={a.prop} replay={replay} no-failing-input-found")
    ev["violations"] = len(lines)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(EVID, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop}: {proved}/{len(obls)} obligations discharged, {len(refuted)} refuted, {len(open_)} open, {len(undecided)} harnesses undecided; {con['cases']} bounded cases; {ev['wall_s']} s")
    for u in undecided[:5]:
        print(f"undecided: {u['harness']} {u['variant']}: {u['why']}"[:300])
    if con.get("error"):
        print("bounded execution:", con["error"][-500:])
    for _, key, what in con.get("known", []):
        print(f"KNOWN-FINDING: property={a.prop} {key}: {what}")
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


if __name__ == "__main__":
    if sys.argv[1:] == ["--hash"]:
        json.dump(source_hashes(), sys.stdout, indent=0, sort_keys=True)
    else:
        main()
