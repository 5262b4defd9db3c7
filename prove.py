#!/usr/bin/env python3-vt
"""prove.py PROP [--only NAME] [-v]: developer front end of the proof part."""
import argparse, sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import vc
import contracts
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--tmo", type=float, default=10); ap.add_argument("--tb", action="store_true")
a = ap.parse_args()
props = sorted(vc.REG) if a.prop == "all" else a.prop.split(",")
for p in props:
    for r in vc.run_prop(p, only=a.only, tmo=a.tmo):
        n = len(r["obls"]); ok = sum(o["status"] == "proved" for o in r["obls"])
        print(p, r["harness"], r["variant"], r["status"], f"{ok}/{n} paths={r['paths']} {r.get('wall_s')}s (explore {r.get('explore_s')})", "" if r["status"] == "ok" and ok == n and n else "  <<<<<<")
        if r["status"] != "ok" and (a.tb or a.v): print("\n".join((r.get("tb") or "").split("\n")[-12:]))
        bad = [o for o in r["obls"] if o["status"] != "proved"]
        for o in (r["obls"] if a.v else bad[:7]):
            if o["status"] != "proved": print("    FAIL", o["status"], o["name"], "|", o["kind"], o["loc"], o["backend"], o["s"], o["note"][:(1500 if a.v else 150)].replace("\n", " "))
            elif a.v: print("    ok", o["name"], o["backend"], o["s"])
