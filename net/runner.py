"""Runs random cases of one property in worker processes, shrinks and stores failures."""
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import real


def case_of(prop, seed, i):
    from . import judges
    r = random.Random(f"{prop}/{seed}/{i}")
    c = judges.GEN[prop](r)
    if isinstance(c, dict) and isinstance(c.get("b"), dict) and r.random() < .3:
        decorate(r, c["b"])
    if isinstance(c, dict) and isinstance(c.get("b"), dict) and r.random() < .4:
        # through the files and the configuration of a command, not from the texts
        c["b"]["via"] = r.choice(["cfs", "c", "binary", "cosmos"])
    return c


def decorate(r, b):
    """comments at every kind of place, whatever the case is about"""
    from .model import pick_comment
    p = r.choice([.1, .4, .9])
    b["wcc"] = r.randint(0, 9)
    for m in b["mods"]:
        m["comment"] = m.get("comment") or pick_comment(r, p, False, False)
        for d in m["defs"]:
            d["comment"] = d.get("comment") or pick_comment(r, p, False)
            for x in d.get("m", ()):
                x["comment"] = x.get("comment") or pick_comment(r, p)
            for x in d.get("items", ()):
                x["comment"] = x.get("comment") or pick_comment(r, p, False)
    if r.random() < .3:
        # characters that mean something in the generated files
        places = [x for m in b["mods"] for x in [m] + m["defs"] + [y for d in m["defs"] for y in d.get("m", []) + d.get("items", [])]]
        for x in r.sample(places, min(len(places), r.choice([1, 1, 2]))):
            if "imports" in x and r.random() < .5:
                continue
            w = r.choice(["a", "On", "x 1"]) + r.choice(["", " "]) + r.choice(["\\", "*/", '"', "/*", "//", "'", "#", ";", "?", "=", "&", "<>", "@", "+", "!", "%s", "%"]) + r.choice(["", "", " b", "C", " "])
            x["comment"] = {"unit": "", "text": w.rstrip() if r.random() < .8 else w, "le": False}
            b["odd"] = 1


def is_fast(i):
    """one case in twelve goes through the text parser from the start"""
    return i % 12 != 0


def expanded(b, limit=50000):
    """are all structures, with those they contain written out, of moderate size? (the program walks them without memory)"""
    defs = {d["name"]: d for m in b["mods"] for d in m["defs"]}
    size = {}

    def go(n, path):
        if n in size:
            return size[n]
        if n in path or n not in defs or len(path) > 200:
            return 1
        k = 1
        for x in defs[n].get("m", ()):
            t = x.get("t") or ["bool"]
            while t[0] == "arr":
                t = t[2]
            k += go(t[1], path | {n}) if t[0] == "ref" else 1
        size[n] = k
        return k
    return sum(go(n, frozenset()) for n in defs) <= limit


def judge_case(prop, case, quick=False):
    """None, 'skip', or the failure text"""
    from . import judges, fast
    fast.FAST = quick
    try:
        b = case.get("b") if isinstance(case, dict) else None
        if isinstance(b, dict) and "mods" in b and not expanded(b):
            return "skip"
        if isinstance(b, dict) and b.get("odd") and real.attempt(real.build, copy.deepcopy(b))[0] != "ok":
            return "skip"       # a comment that the dialect does not allow
        return judges.run(prop, copy.deepcopy(case))
    except judges.Skip:
        return "skip"
    except RecursionError:
        return "the judge ran out of stack"
    except AssertionError as e:
        return f"output could not be read: {e}"
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, UnicodeDecodeError) as e:
        return "output or model could not be read: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " at " + traceback.format_exc().strip().splitlines()[-3].strip()
    except fast.NotPossible:
        return "skip"
    finally:
        fast.FAST = False


def _chunk(a):
    from . import twin
    try:
        return chunk_(*a)
    finally:
        twin.stop_all()


def chunk_(prop, seed, lo, hi, stop):
    real.setup()
    n = skip = 0
    seen = set()
    for i in range(lo, hi):
        if time.time() > stop:
            break
        try:
            c = case_of(prop, seed, i)
        except IndexError:
            skip += 1
            continue
        w = judge_case(prop, c, is_fast(i))
        n += 1
        if w and w != "skip" and is_fast(i):
            w = judge_case(prop, c)     # only what fails on the parsed text counts
        if w == "skip":
            skip += 1
        elif w:
            return n, skip, seen, (i, lo, c, w)
        else:
            seen.add(hashlib.blake2b(json.dumps(c, sort_keys=True, default=str).encode(), digest_size=8).digest())
    return n, skip, seen, None


def _one(a):
    prop, case = a
    from . import twin
    real.setup()
    try:
        return judge_case(prop, case)
    finally:
        twin.stop_all()


def fresh(prop, case):
    with mp.get_context("fork").Pool(1, maxtasksperchild=1) as p:
        return p.apply(_one, ((prop, case),))


def variants(x):
    """smaller versions of a JSON value: drop list elements, drop comments, recurse"""
    if isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in ("int", "real", "bool", "str", "arr", "ref", "null", "f"):
            return
        if x and isinstance(x[0], str) and x[0] == "wc":
            for y in variants(x[1]):
                yield ["wc", y]
            return
        if len(x) > 1 and all(isinstance(e, (dict, list)) for e in x):
            if len(x) > 3:
                yield x[:len(x) // 2]
                yield x[len(x) // 2:]
            for i in range(len(x)):
                yield x[:i] + x[i + 1:]
        for i, e in enumerate(x):
            if isinstance(e, (dict, list)):
                for y in variants(e):
                    yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k, v in x.items():
            if k in ("comment", "cimp", "wc") and v is not None:
                yield {**x, k: None}
            if isinstance(v, (dict, list)) and k not in ("t", "list"):
                for y in variants(v):
                    yield {**x, k: y}


def shrink(prop, case, budget=20):
    """smaller failing case: first without parsing, then on the text"""
    quick, w = shrink1(prop, case, budget / 2, True)
    if w and w != "skip":
        w = judge_case(prop, quick)
    return shrink1(prop, quick if w and w != "skip" else case, budget / 2, False)


def shrink1(prop, case, budget, fast):
    end = time.time() + budget
    best = case
    t = time.time()
    w = judge_case(prop, case, fast)
    if time.time() - t > budget / 2:
        return best, w      # each judgement takes too long
    changed = True
    while changed and time.time() < end:
        changed = False
        for v in variants(best):
            if time.time() > end:
                break
            w = judge_case(prop, v, fast)
            if w and w != "skip" and "could not be read" not in w:
                best = v
                changed = True
                break
    return best, judge_case(prop, best, fast)


def _shrink(a):
    from . import twin
    real.setup()
    try:
        return shrink(*a)
    finally:
        twin.stop_all()


def search(prop, seed, seconds, workers=8, chunk=200, max_cases=10 ** 9, start=0):
    """-> dict(cases, skipped, failure=None|{...}, wall)"""
    t = time.time()
    stop = t + seconds
    cases = skipped = 0
    distinct = set()
    nxt = start
    fail = None
    ctx = mp.get_context("fork")
    with ctx.Pool(workers, maxtasksperchild=1) as pool:
        pend = []

        def submit():
            nonlocal nxt
            pend.append(pool.apply_async(_chunk, ((prop, seed, nxt, nxt + chunk, stop),)))
            nxt += chunk
        for _ in range(workers):
            submit()
        while pend:
            r = pend.pop(0)
            n, s, d, f = r.get()
            cases += n
            distinct |= d
            skipped += s
            if f and fail is None:
                fail = f
                break
            if time.time() < stop and cases < max_cases:
                submit()
        pool.terminate()
    res = dict(cases=cases, skipped=skipped, distinct=len(distinct), seed=seed, wall=time.time() - t, failure=None)
    if fail:
        i, lo, c, w = fail
        alone = fresh(prop, c)
        if alone and alone != "skip":
            with ctx.Pool(1) as p:
                c2, w2 = p.apply(_shrink, ((prop, c, 25),))
            if not w2 or w2 == "skip":
                c2, w2 = c, alone
            res["failure"] = dict(property=prop, why=w2, case=c2, index=i, seed=seed, alone=True)
        else:
            res["failure"] = dict(property=prop, why=w + " (only after the preceding cases of the same process)", case=c, index=i, first=lo, seed=seed, alone=False)
    return res


def replay(f):
    """re-judge a stored failure in this process; returns the failure text or None"""
    real.setup()
    if not f["alone"]:
        for i in range(f["first"], f["index"]):
            judge_case(f["property"], case_of(f["property"], f["seed"], i), is_fast(i))
    return judge_case(f["property"], f["case"])


if __name__ == "__main__":
    props = sys.argv[1].split(",")
    for p in props:
        real.setup()
        r = search(p, os.environ.get("VERIF_SEED", "1"), float(sys.argv[2]))
        f = r.pop("failure")
        print(p, r)
        if f:
            from .model import texts
            print("  FAIL", f["why"])
            if "-v" in sys.argv:
                if "b" in f["case"]:
                    print("\n".join(texts(f["case"]["b"])))
                print(json.dumps({k: v for k, v in f["case"].items() if k != "b"}))
