#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   decides one property against /repo's working tree.
   check.py --replay FILE                          re-judges a stored counterexample against /repo.

1. deductive part: every contract (pre/postcondition written as a specification function) whose functions the property
   depends on is discharged against the current source by pyvc + z3, function by function;
2. counterexamples: bounded search over random bundles through the real pipeline, judged by an independent oracle.
   A failed obligation is reported with the failing input this search finds, or as no-failing-input-found.
"""
import sys
import os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if __name__ == "__main__" and "PYTHONHASHSEED" not in os.environ:
    # the same order of sets in every run
    os.execve(sys.executable, [sys.executable, *sys.argv], dict(os.environ, PYTHONHASHSEED="0"))
EVIDENCE = os.environ.get("APG_EVIDENCE", os.path.join(HERE, "evidence"))
import warnings
warnings.filterwarnings("ignore")
import argparse
import json
import time
from net import real, runner


def replay_dir():
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    return d


def write(path, data):
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)


def do_replay(path):
    f = json.load(open(path))
    if f.get("kind") == "obligation":
        print(f["report"])
        print("no failing input: the obligations above are not discharged for the current source")
        return 1
    w = runner.replay(f)
    if "texts" in f:
        print("\n".join(f["texts"]))
    print("replayed:", w)
    return 1 if w and w != "skip" else 0


def known(prop):
    from net import findings
    out = []
    for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
        if k["property"] == prop and findings.reproduces(k["id"]):
            out.append(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(do_replay(a.replay))
    t0 = time.time()
    prop = a.prop
    seed = os.environ.get("VERIF_SEED", "1")
    thorough = a.tier == "thorough"
    secs = a.seconds or (300 if thorough else 45)
    real.setup()
    violations = []
    print(f"{prop}: {a.tier} check, seed {seed}", flush=True)

    # ---- deductive part in background processes, search in the foreground
    from pyvc import driver
    job = None if a.no_proof else driver.start(prop, workers=8, deadline=600 if thorough else 240, closure=thorough)
    net = runner.search(prop, seed, secs, workers=6 if job else 8)
    proof = job.results() if job else driver.empty()
    fail = net["failure"]
    if fail is None and proof["undischarged"]:
        # obligations are open: search longer for a failing input
        deeper = runner.search(prop, seed + "+", 240 if thorough else 120, workers=8, start=10 ** 6)
        net["cases"] += deeper["cases"]
        net["skipped"] += deeper["skipped"]
        net["distinct"] += deeper["distinct"]
        fail = deeper["failure"]
    if fail is not None:
        p = os.path.join(replay_dir(), f"{prop}.json")
        if "b" in fail["case"]:
            from net.model import texts
            fail["texts"] = texts(fail["case"]["b"])
        fail["kind"] = "input"
        fail["failed_obligations"] = proof["report"]
        fail["how"] = f"python3-vt {HERE}/check.py --replay {p}"
        write(p, fail)
        print(f"failing input: {fail['why']}")
        for t in fail.get("texts", []):
            print(t)
        print({k: v for k, v in fail["case"].items() if k != "b"})
        for r in proof["report"]:
            print("failed obligation:", r)
        print(f"VIOLATION property={prop} replay={p}")
        violations.append(dict(why=fail["why"], replay=p, failed_obligations=proof["report"]))
    elif proof["refuted"]:
        p = os.path.join(replay_dir(), f"{prop}.json")
        write(p, dict(kind="obligation", property=prop, report="\n".join(proof["report"]), detail=proof["detail"]))
        for r in proof["report"]:
            print("failed obligation:", r)
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        violations.append(dict(why=proof["report"], replay=p))
    else:
        for k in known(prop):
            print(k)
        for r in proof["report"]:
            print("not discharged (covered by the bounded search only):", r)
    ev = driver.evidence(prop, a.tier, seed, proof, net, time.time() - t0, violations)
    os.makedirs(EVIDENCE, exist_ok=True)
    write(os.path.join(EVIDENCE, f"{prop}.json"), ev)
    print(f"{prop}: {proof['proved']}/{proof['functions']} functions proved, {proof['obligations']} obligations, solver {proof['solver_s']:.1f}s; "
          f"{net['cases']} inputs searched; {time.time() - t0:.0f}s")
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
