#!/usr/bin/env python3
"""exp.py [-p PROP] [-s SECONDS] [--no-proof] id...   runs the check of each planted bug (default: all) against a scratch copy with the patch applied.
Development aid only: the registered checks always run against /repo."""
import argparse, json, os, re, shutil, subprocess, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("-p")
ap.add_argument("-s", default=None)
ap.add_argument("-v", action="store_true")
ap.add_argument("--no-proof", action="store_true")
a = ap.parse_args()
S = os.path.join(HERE, "seeded")
for i in a.ids or sorted(os.listdir(S)):
    d = i if os.path.isdir(i) else os.path.join(S, i)
    w = tempfile.mkdtemp(prefix="exp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w + "/repo", check=True)
        prop = a.p or json.load(open(os.path.join(d, "meta.json")))["property"]
        t = time.time()
        env = dict(os.environ, APG_REPO=w + "/repo", APG_EVIDENCE=w + "/ev", VERIF_SEED="1")
        r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), prop] + (["--seconds", a.s] if a.s else []) + (["--no-proof"] if a.no_proof else []), env=env, capture_output=True, text=True)
        lines = r.stdout.splitlines()
        v = [l for l in lines if l.startswith("VIOLATION")]
        kind = "MISSED" if not v else ("obligation only" if v[0].endswith("no-failing-input-found") else "input")
        ob = [l[:150] for l in lines if l.startswith("failed obligation")]
        print(f"{os.path.basename(i):30s} {prop} rc={r.returncode} {kind:16s} {time.time()-t:5.0f}s failed obligations: {len(ob)}", flush=True)
        for o in ob[:3]:
            print("      ", o)
        if a.v or r.returncode not in (0, 1):
            print(r.stdout[-3000:], r.stderr[-2000:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
