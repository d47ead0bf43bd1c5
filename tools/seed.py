#!/usr/bin/env python3
"""Plants the bugs listed in tools/seeds.py: scratch copy, patch, stable tests, demo on both trees -> /verif/seeded/<id>/.
usage: seed.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), "seeded")
PRE = '''import os, sys, tempfile, shutil, signal, logging, warnings
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
import asn1_parser.main
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder as BB
from asn1_parser.cli import cli_arg_parser as cli
from asn1_parser.generators.cfs.generator import CFSGenerator
from asn1_parser.generators.c.generator import CGenerator
from asn1_parser.generators.binary.generator import BinaryGenerator
from asn1_parser.generators.cosmos.generator import COSMOSGenerator
signal.alarm(60)

def M(name, body, imports=""):
    return f"Module-{name} DEFINITIONS AUTOMATIC TAGS ::= BEGIN\\n{imports}\\n{body}\\nEND\\n"

def out(kind, bundle, msgs=(), mod=None, endian="little-endian"):
    d = tempfile.mkdtemp()
    try:
        n = bundle.get_modules_names()
        if kind == "cfs":
            CFSGenerator.generate_cfs(cli.GenerateCFSCommandConfig("", [], n, d), bundle)
        elif kind == "c":
            CGenerator.generate_c(cli.GenerateCCommandConfig("", [], n, d), bundle)
        elif kind == "binary":
            BinaryGenerator.generate_binary(cli.GenerateBinaryCommandConfig("", [], n, d, endian), bundle)
        else:
            COSMOSGenerator.generate_cosmos(cli.GenerateCosmosCommandConfig("", [], mod or n[0], list(msgs), "o", d), bundle)
        r = {}
        for f in sorted(os.listdir(d)):
            b = open(os.path.join(d, f), "rb").read()
            r[f] = b if f.endswith(".bin") else b.decode()
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def build(*texts):
    return BB.build_from_texts(list(texts))

def rejected(f):
    try:
        f()
    except Exception:
        return True
    return False

'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
ids = sys.argv[1:] or [s["id"] for s in SEEDS]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
for s in SEEDS:
    if s["id"] not in ids:
        continue
    w = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(w, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    for f, a, b in s["edits"]:
        p = os.path.join(r, "asn1_parser", f)
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a))
        open(p, "w").write(t.replace(a, b))
    diff = sh("git diff", r).stdout
    d = os.path.join(w, "demo")
    os.makedirs(d)
    open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    good = sh("bash " + d + "/demo.sh", "/repo")
    bad = sh("bash " + d + "/demo.sh", r)
    tests = sh("/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3; ls", r) if False else None
    t = sh("PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q tests/unit 2>&1 | tail -8", r)
    lit = sh(f'PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/lit -v --timeout 120 --param ASN1_PARSER_EXEC=\'python3 -B "{r}/asn1_parser/main.py"\' tests/integration 2>&1 | grep -E "^FAIL|Failed|Passed" | tail -8', r)
    ok = good.returncode == 0 and bad.returncode != 0
    print(s["id"], "demo ok" if ok else f"DEMO BAD good={good.returncode} bad={bad.returncode}\n{good.stderr[-600:]}\n{bad.stderr[-300:]}", "| tests:", t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr, "| lit:", " ".join(lit.stdout.split()))
    if ok and "Failed" not in lit.stdout and "failed" not in t.stdout and "error" not in t.stdout.lower():
        o = os.path.join(OUT, s["id"])
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(o, "meta.json"), "w"), indent=1)
    else:
        print("   NOT KEPT", t.stdout[-400:])
    shutil.rmtree(w)
