"""Executes contracts concretely on the real code (bounded cross-check and replay).

usage: run.py PROPERTY --tier quick|thorough --seed N --out FILE [--budget S] | run.py --replay FILE
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import numpy as np  # noqa: E402

for mod in ("k_basis", "k_shape", "k_build", "k_data", "k_latt", "k_misc"):
    try:
        importlib.import_module(mod)
    except ModuleNotFoundError as e:
        if e.name != mod:
            raise


def run_case(name, seed, k):
    _, f, _, _ = common.CHECKS[name]
    rng = np.random.default_rng([seed, k, zlib.crc32(name.encode())])
    info = {}
    try:
        f(rng, k, info)
        return None
    except common.Fail as e:
        return {"clause": str(e)[:1500], "input": {a: repr(b)[:3000] for a, b in info.items()}}
    except Exception as e:  # an exception on an admissible input violates the contract
        tb = traceback.extract_tb(e.__traceback__)
        if not any("/lattpy/" in fr.filename for fr in tb) and not isinstance(e, (IndexError, KeyError, AttributeError, TypeError, ValueError)):
            raise
        return {"clause": f"no exception on admissible input: {type(e).__name__}: {e}"[:1500],
                "input": {a: repr(b)[:3000] for a, b in info.items()},
                "traceback": "".join(traceback.format_exception(e))[-3000:]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=100)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        c = r["case"]
        v = run_case(c["check"], c["seed"], c["case"])
        print(json.dumps(v, indent=1) if v else "no violation")
        sys.exit(1 if v else 0)
    t0 = time.time()
    res = {"checks": {}, "violations": [], "cases": 0}
    names = [n for n, c in common.CHECKS.items() if c[0] == a.prop and (not a.only or a.only in n)]
    todo = {n: (common.CHECKS[n][2] if a.tier == "quick" else common.CHECKS[n][3]) for n in names}
    k = 0
    done = {n: 0 for n in names}
    bad = set()
    while True:      # round-robin so that a tight budget still covers every contract
        live = [n for n in names if done[n] < todo[n] and n not in bad]
        if not live or time.time() - t0 > a.budget:
            break
        for n in live:
            v = run_case(n, a.seed, done[n])
            if v:
                v["case"] = {"check": n, "seed": a.seed, "case": done[n]}
                res["violations"].append(v)
                bad.add(n)
            done[n] += 1
            res["cases"] += 1
    res["checks"] = {n: {"cases": done[n], "of": todo[n]} for n in names}
    res["known"] = common.KNOWN
    res["wall_s"] = round(time.time() - t0, 2)
    txt = json.dumps(res, indent=1)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(txt)


main()
