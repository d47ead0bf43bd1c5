"""Runs the contracts of one property in worker processes and reports what was discharged."""
import multiprocessing as mp
import os
import subprocess
import time
import traceback

MODULES = ("sizes", "processors", "bundle", "ccode", "sorter", "generate", "cosmos", "builder", "enumeration", "cli", "constructors", "lemmas", "frames")


def load():
    import importlib
    from contracts import schema
    bad = []
    for m in MODULES:
        try:
            importlib.import_module("contracts." + m)
        except Exception as e:          # the vocabulary of the specification is gone
            bad.append((m, f"{type(e).__name__}: {e}"))
    return schema, bad


def lemma(path):
    """checks a file of lemmas with Lean: (number of lemmas, what is wrong or None)"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    try:
        p = subprocess.run(["lean", os.path.join(here, path)], capture_output=True, text=True, timeout=200)
    except (OSError, subprocess.TimeoutExpired) as e:
        return 0, f"lemmas {path} not checked: {type(e).__name__}"
    n = p.stdout.count("depends on axioms")
    if p.returncode or "sorryAx" in p.stdout or not n:
        return n, f"lemmas {path}: {p.stdout[-300:]}"
    return n, None


def _verify(args):
    name, only, deadline = args
    t = time.time()
    try:
        schema, _ = load()
        c = next(x for x in schema.CONTRACTS if x.name == name)
        r = c.verify(schema.world, deadline, only)
        fs = []
        if r.proved and only in (None, 0):
            for l in c.lemmas:
                n, why = lemma(l)
                r.obligations += n
                if why:
                    r.fail("unsupported", why)
        for f in r.failures:
            m = None
            try:
                m = str(f.model)[:4000] if f.model is not None else None
            except Exception:
                pass
            fs.append(dict(kind=f.kind, why=f.why[:2000], variant=str(f.variant or ""), model=m))
        return dict(name=name, proved=r.proved, failures=fs, obligations=r.obligations, paths=r.paths, spec_paths=r.spec_paths, queries=r.queries,
                    solver_s=r.solver_s, inlined=sorted(map(str, r.inlined)), used=sorted(map(str, r.used)), wall=time.time() - t)
    except BaseException as e:
        return dict(name=name, proved=False, failures=[dict(kind="unsupported", why="verifier: " + "".join(traceback.format_exception_only(type(e), e)).strip(), variant="", model=None)],
                    obligations=0, paths=0, spec_paths=0, queries=0, solver_s=0.0, inlined=[], used=[], wall=time.time() - t)


def empty():
    return dict(functions=0, proved=0, obligations=0, discharged=0, solver_s=0.0, queries=0, refuted=False, undischarged=False, report=[], detail=[], results=[], elsewhere=[])


def merge(results):
    """variants of one function into one entry"""
    out = {}
    for r in results:
        o = out.get(r["name"])
        if o is None:
            out[r["name"]] = r
            continue
        o["proved"] = o["proved"] and r["proved"]
        for k in ("failures", "obligations", "paths", "spec_paths", "queries", "solver_s"):
            o[k] = o[k] + r[k]
        o["inlined"] = sorted(set(o["inlined"]) | set(r["inlined"]))
        o["used"] = sorted(set(o["used"]) | set(r["used"]))
        o["wall"] = max(o["wall"], r["wall"])
    return list(out.values())


class Job:
    def __init__(self, prop, workers, deadline, closure=False):
        """closure: also the contracts that the property's functions use at their call sites, transitively"""
        self.prop, self.closure, self.contracts = prop, closure, {}
        try:
            schema, self.bad = load()
            self.contracts = {c.name: c for c in schema.CONTRACTS}
            self.names = [(c.name, i) for c in schema.CONTRACTS if prop in c.props and not c.assumed for i in range(len(c.variants))]
        except Exception as e:
            self.bad, self.names = [("schema", f"{type(e).__name__}: {e}")], []
        self.pool = mp.get_context("fork").Pool(workers, maxtasksperchild=1) if self.names else None
        self.deadline = deadline
        self.pending = [(n, self.pool.apply_async(_verify, ((n, i, deadline),))) for n, i in self.names]

    def results(self):
        out = empty()
        end = time.time() + self.deadline * 1.6
        started = {n for n, _ in self.pending}
        for n, p in self.pending:               # grows while it is walked through
            try:
                r = p.get(max(1, end - time.time()))
            except mp.TimeoutError:
                r = dict(name=n, proved=False, failures=[dict(kind="timeout", why="no answer in time", variant="", model=None)], obligations=0, paths=0, spec_paths=0,
                         queries=0, solver_s=0.0, inlined=[], used=[], wall=self.deadline)
            out["results"].append(r)
            for u in r["used"] if self.closure else ():
                c = self.contracts.get(u)
                if c is not None and u not in started and not c.assumed:
                    started.add(u)
                    self.pending += [(u, self.pool.apply_async(_verify, ((u, i, self.deadline),))) for i in range(len(c.variants))]
        if self.pool:
            self.pool.terminate()
        out["results"] = merge(out["results"])
        for r in out["results"]:
            out["functions"] += 1
            out["obligations"] += r["obligations"]
            out["solver_s"] += r["solver_s"]
            out["queries"] += r["queries"]
            if r["proved"]:
                out["proved"] += 1
                out["discharged"] += r["obligations"]
            else:
                out["undischarged"] = True
                out["discharged"] += max(0, r["obligations"] - len(r["failures"]))
                for f in r["failures"] or [dict(kind="vacuous", why="no path reached the postcondition", variant="", model=None)]:
                    out["report"].append(f"{r['name']} {f['variant']}: {f['kind']}: {f['why'][:400]}")
                    out["detail"].append(dict(f, function=r["name"]))
                    if f["kind"] == "refuted":
                        out["refuted"] = True
        for r in out["results"]:
            for u in r["used"]:
                c = self.contracts.get(u)
                if c is None or u in started:
                    continue
                where = "assumed" if c.assumed else "discharged by check " + " ".join(c.props)
                if (u, where) not in out["elsewhere"]:
                    out["elsewhere"].append((u, where))
        for m, e in self.bad:
            out["undischarged"] = True
            out["report"].append(f"specification module {m} cannot be loaded: {e}")
        return out


def start(prop, workers, deadline, closure=False):
    return Job(prop, workers, deadline, closure)


ASSUMPTIONS = [
    "Python semantics as encoded by pyvc (pyvc/interp.py, pyvc/builtins.py): attribute access, calls, loops as folds over finite lists, exceptions as rejection; mutation-tested against CPython, not proved",
    "float values are treated as exact rationals; int as mathematical integers (as in Python)",
    "distinct model objects reached through different paths are treated as unaliased unless equal terms",
    "recursive functions under contract are proved partially correct (termination on well-founded input assumed)",
    "logging, error message texts, directory creation and docstrings are dropped; exception classes are not distinguished (any exception = rejection)",
    "textX (parsing, object and model processor dispatch), cgen and struct are trusted",
    "z3 is trusted",
]


def evidence(prop, tier, seed, proof, net, wall, violations):
    from contracts import levels
    from net import runner
    lv = levels.LEVELS.get(prop, {})
    whole = proof["functions"] > 0 and proof["proved"] == proof["functions"] and not proof["undischarged"]
    try:
        sample = [runner.case_of(prop, seed, i) for i in (0, 1)]
    except Exception:
        sample = []
    return dict(
        property=prop, tier=tier, seed=int(seed) if str(seed).isdigit() else 0,
        level=lv.get("level", "proof") if whole else "exploration",     # with an open obligation this run has only searched
        coverage=dict(
            obligations=proof["obligations"], discharged=proof["discharged"],
            checker_cmd=f"python3-vt /verif/check.py {prop} --tier {tier}",
            trusted_base=["pyvc (verification condition generator, /verif/pyvc)", "z3 (python bindings of python3-vt)", "Lean 4 kernel (lemmas/*.lean)", "CPython ast module", "textX, argparse, cgen, struct"],
            functions_under_contract=[dict(function=r["name"], proved=r["proved"], obligations=r["obligations"], code_paths=r["paths"], spec_paths=r["spec_paths"],
                                           solver_queries=r["queries"], solver_s=round(r["solver_s"], 2), inlined_callees=r["inlined"], callees_by_contract=r["used"],
                                           open=[f["why"][:300] for f in r["failures"]]) for r in proof["results"]],
            functions=proof["functions"], functions_proved=proof["proved"],
            contracts_used_but_not_discharged_in_this_run=[dict(function=u, status=w) for u, w in proof["elsewhere"]],
            backend="z3; Lean for the lemma files", solver_s=round(proof["solver_s"], 2), solver_queries=proof["queries"],
            not_discharged=proof["report"], violations_found=violations,
            evaluations=net["cases"], distinct_nontrivial=net["distinct"], samples=sample,
            rule="search for failing inputs, not counted as proof: random bundles of up to 8 modules, about 40 definitions, 20 members each, through the real pipeline, judged by an independent oracle; "
                 "non-trivial: the judge could decide the case (not skipped); distinct by the hash of the whole case",
            search=dict(skipped=net["skipped"], seed=net["seed"]),
        ),
        assumptions=ASSUMPTIONS + lv.get("assumptions", []),
        wall_s=round(wall, 1), violations=len(violations))
