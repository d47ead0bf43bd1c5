#!/usr/bin/env python3-vt
"""prove.py [FILTER] [-d SECS] [-w WORKERS]   discharges every contract (whose name contains FILTER) against APG_REPO (default /repo)."""
import os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import argparse
import multiprocessing as mp
ap = argparse.ArgumentParser()
ap.add_argument("filter", nargs="?", default="")
ap.add_argument("-d", type=float, default=240)
ap.add_argument("-w", type=int, default=6)
a = ap.parse_args()
from pyvc import driver
schema, bad = driver.load()
for b in bad:
    print("BAD", b)
jobs = [(c.name, i, a.d) for c in schema.CONTRACTS if not c.assumed and a.filter in c.name + " " + c.spec.__module__ for i in range(len(c.variants))]
t = time.time()
with mp.get_context("fork").Pool(a.w, maxtasksperchild=1) as p:
    rs = driver.merge(p.map(driver._verify, jobs, 1))
for r in sorted(rs, key=lambda r: r["wall"]):
    if not r["proved"] or r["wall"] > 20:
        print("OK  " if r["proved"] else "FAIL", r["name"].split(":")[-1], f"paths {r['paths']} obl {r['obligations']} q {r['queries']} wall {r['wall']:.1f}")
        for f in r["failures"][:3]:
            print("      ", f["kind"], f["why"][:400])
print(f"{sum(r['proved'] for r in rs)}/{len(rs)} functions, {sum(r['obligations'] for r in rs)} obligations, {time.time() - t:.0f}s")
