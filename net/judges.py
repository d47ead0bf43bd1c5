"""Per property: random cases and the judgement of the real code's behaviour on one case (None = holds)."""
import copy
import random
import re

from . import fast, real, twin
from .model import Gen, texts, pick_int_range, pick_real, signed, RESERVED, BUILTIN, LOW, CAP, CCSDS, cap, low, uniq, pick_comment, DMAX
from .oracle import B, Reject, cname, lower1, tname, enum_numbers, lit, is_single, type_problems

GEN, JUDGE = {}, {}


def gen(p):
    return lambda f: GEN.setdefault(p, f)


def judge(p):
    return lambda f: JUDGE.setdefault(p, f)


class Fail(Exception):
    pass


def need(c, why):
    if not c:
        raise Fail(why)


def run(prop, case):
    try:
        return JUDGE[prop](case)
    except Fail as e:
        return str(e)


def valid(rng, **k):
    if rng.random() < .3:
        k["comments"] = .5
    mx = k.pop("max_wc", 1)
    g = Gen(rng, **k)
    g.max_wc_n = mx
    b = g.bundle()
    return b


def accept(case):
    o = B(case["b"])
    ps = o.problems()
    if ps:
        raise Skip(str(ps))
    k, v = real.attempt(real.build, case["b"])
    need(k != "hang", "building the bundle does not terminate")
    need(k == "ok", f"a correct bundle is rejected: {v!r}")
    return o, v


class Skip(Exception):
    pass


def gen_out(kind, bundle, **k):
    r, v = real.attempt(real.outputs, kind, bundle, **k)
    need(r != "hang", f"generator {kind} does not terminate")
    need(r == "ok", f"generator {kind} fails on a correct bundle: {v!r}")
    return v


def hfile(kind, name):
    return cname(name) + ("_msg.h" if kind == "cfs" else ".h")


def header(out, kind, name):
    f = hfile(kind, name)
    need(f in out, f"{kind}: no file {f} for module {name}")
    return real.Header(out[f].decode())


def members(bundle):
    for m in bundle["mods"]:
        for d in m["defs"]:
            if d["k"] in ("seq", "choice"):
                for x in d["m"]:
                    yield m, d, x


def rmember(rb, m, d, x):
    """the real model element of a member"""
    mod = [q for q in rb.get_modules() if q.get_module_name() == m["name"]][0]
    dd = [q for q in mod.get_definitions() if q.get_type_name() == d["name"]][0]
    i = [id(y) for y in d["m"]].index(id(x))
    need(len(dd.get_children()) == len(d["m"]), f"{d['name']} has {len(dd.get_children())} members, written {len(d['m'])}")
    r = dd.get_children()[i]
    need(r.get_key() == x["key"], f"member {i} of {d['name']} is {r.get_key()}, written {x['key']}")
    return r


# ------------------------------------------------------------------ C01

@gen("C01")
def _(r):
    if r.random() < .5:
        lo, hi = 0, 0
        t = r.random()
        if t < .35:
            k = r.randrange(0, 80)
            hi = max(0, 2 ** k + r.choice([-2, -1, 0, 1, 2]))
            if r.random() < .3:
                hi = r.randrange(2 ** k, 2 ** (k + 1))
            return {"f": "get_bit_size", "kind": "UINT", "lo": r.choice([0, 0, hi, hi // 2]), "hi": hi}
        if t < .7:
            b = r.choice([8, 16, 32, 64])
            h = 2 ** (b - 1)
            lo = r.choice([-h, -h - 1, -h + 1, -1, -r.randrange(1, 2 * h)])
            hi = r.choice([h - 1, h, h - 2, -1, 0, r.randrange(0, 2 * h)])
            return {"f": "get_bit_size", "kind": "INT", "lo": min(lo, hi), "hi": hi}
        if t < .85:
            return {"f": "bytes", "n": r.choice([r.randrange(0, 200), 8 * r.randrange(0, 1000), r.randrange(0, 2 ** 60), 8 * r.randrange(0, 2 ** 50)])}
        if t < .95:
            return {"f": "get_bit_size", "kind": r.choice(["BOOL", "FLOAT", "DOUBLE", "STRING"]), "lo": 0, "hi": r.choice([0, 1, 4, 255, r.randrange(10 ** 6)])}
        return {"f": "enum", "n": r.choice(list(range(1, 40)) + [2 ** k + e for k in range(1, 9) for e in (-1, 0, 1)]) or 1}
    b = valid(r, mods=(1, 2), defs=(1, 4), wc=0, ccsds=0, comments=0)
    if r.random() < .15:
        big = r.choice([["int", 0, 2 ** 64], ["int", 0, 2 ** 65 + 3], ["int", -2 ** 63 - 1, 0], ["int", -1, 2 ** 63], ["int", 0, 2 ** 64 + r.randrange(2 ** 64)]])
        m = r.choice(b["mods"])
        m["defs"].append({"k": "seq", "name": "Zbig", "comment": None, "m": [{"key": "big", "t": big, "comment": None, "wc": None}]})
    return {"f": "model", "b": b}


def width_of(o, t):
    try:
        return o.width(t)
    except Reject:
        return None


@judge("C01")
def _(c):
    o = B({"mods": []})
    if c["f"] == "get_bit_size":
        from asn1_parser.utils.size import get_bit_size, TypeEnum
        k, v = real.attempt(get_bit_size, TypeEnum("BOOL" if c["kind"] == "BOOL" else c["kind"]), c["lo"], c["hi"])
        if c["kind"] in ("UINT", "INT"):
            w = width_of(o, ["int", c["lo"] if c["kind"] == "UINT" else min(c["lo"], -1), c["hi"]])
        else:
            w = {"BOOL": 1, "FLOAT": 32, "DOUBLE": 64, "STRING": 8 * c["hi"]}[c["kind"]]
        if w is None:
            need(k == "err", f"{c['kind']} range {c['lo']}..{c['hi']} is given {v} bits instead of being rejected")
        else:
            need(k == "ok" and v == w, f"{c['kind']} range {c['lo']}..{c['hi']} is given {v!r} bits, needs {w}")
        return
    if c["f"] == "bytes":
        from asn1_parser.utils.size import bit_to_bytes
        k, v = real.attempt(bit_to_bytes, c["n"])
        if c["n"] % 8:
            need(k == "err", f"{c['n']} bits became {v} bytes")
        elif c["n"] < 2 ** 53:
            need(k == "ok" and v == c["n"] // 8, f"{c['n']} bits became {v!r} bytes")
        return
    if c["f"] == "enum":
        b = {"mods": [{"name": "m", "comment": None, "cimp": None, "imports": [], "defs": [
            {"k": "enum", "name": "E", "comment": None, "items": [{"key": f"k{i}", "pos": None, "comment": None} for i in range(c["n"])]}]}]}
        _, rb = accept({"b": b})
        k, v = real.attempt(rb.get_modules()[0].get_definitions()[0].get_size_bits)
        w = max(1, (c["n"] - 1).bit_length())
        need(k == "ok" and v == w, f"enumeration of {c['n']} items is given {v!r} bits, needs {w}")
        return
    o, rb = accept(c)
    bad = []
    for m, d, x in members(c["b"]):
        if d["k"] == "choice":
            continue
        r = rmember(rb, m, d, x)
        k, v = real.attempt(r.get_size_bits)
        w = width_of(o, x["t"])
        if w is None:
            bad.append(d["name"])
            continue
        if contains(o, x["t"]):
            continue
        need(k == "ok" and v == w, f"{d['name']}.{x['key']}: {v!r} bits, needs {w}")
    k, v = real.attempt(real.outputs, "cfs", rb)
    if bad:
        need(k == "err", f"{bad} hold a range over 64 bits but code is generated")
        return
    need(k == "ok", f"cfs generation fails: {v!r}")
    out = v
    for m in c["b"]["mods"]:
        h = header(out, "cfs", m["name"])
        for d in m["defs"]:
            if d["k"] == "seq":
                st = h.get(cname(d["name"]))
                need(len(st) == 1, f"{d['name']} defined {len(st)} times")
                for x, f in zip(d["m"], st[0][2]):
                    e = o.cfield(x)
                    need(f[2] == e[2], f"{d['name']}.{x['key']}: bitfield width {f[2]}, needs {e[2]}")


def contains(o, t):
    """a type whose size the real code cannot tell (unions)"""
    if t[0] == "arr":
        return contains(o, t[2])
    if t[0] == "ref" and t[1] in o.defs:
        d = o.d(t[1])
        return d["k"] == "choice" or (d["k"] == "seq" and any(contains(o, x["t"]) for x in d["m"]))
    return False


# ------------------------------------------------------------------ C02

@gen("C02")
def _(r):
    b = valid(r, mods=(1, 1), defs=(1, 4), members=(1, 5), ccsds=0.1, choice=.1, arr="cosmos", comments=.1, wc=.4)
    if r.random() < .4:
        d = {"k": "seq", "name": "Zt", "comment": None, "m": []}
        for i in range(r.randint(1, 3)):
            if r.random() < .5:
                t = r.choice([["int", r.choice([-1, 0, 1, 5]), r.choice([-1, 0, 1, 4, 5, 6])], ["int"], ["int", 0, 0], ["int", -1, -1], pick_int_range(r)])
            else:
                t = r.choice([["real", r.choice(["1.0", "-1.0", "3.4E38", "-3.4E38", "-3.41E38", "-1.0E309", "0.5"]), r.choice(["1.0", "2.0", "3.4E38", "3.41E38", "1.0E309", "0.5"])], ["real"], pick_real(r)])
            d["m"].append({"key": f"k{i}", "t": t, "comment": None, "wc": None})
        b["mods"][0]["defs"].append(d)
    return {"b": b}


def kind_of(t, top=True):
    if t[0] == "arr":
        e = t[2]
        if e[0] == "bool":
            return "BOOL"
        if e[0] == "ref" and e[1] in RESERVED:
            return kind_of(RESERVED[e[1]])
        return None
    if t[0] == "int":
        return None if len(t) == 1 else ("UINT" if t[1] >= 0 else "INT")
    if t[0] == "real":
        return None if len(t) == 1 else ("FLOAT" if is_single(t) else "DOUBLE")
    if t[0] == "bool":
        return "BOOL"
    if t[0] == "str":
        return "STRING"
    if t[0] == "ref" and t[1] in RESERVED:
        return {"I": "INT", "U": "UINT", "F": "FLOAT", "D": "DOUBLE"}[t[1][0]]
    return None


def cmp_wc(wc, r, where):
    cs = r.get_components()
    need([k for k, _ in wc] == [q.get_key() for q in cs], f"{where}: fixed values {[q.get_key() for q in cs]}, written {[k for k, _ in wc]}")
    for (k, v), q in zip(wc, cs):
        g = q.get_value()
        if isinstance(v, list) and v[0] == "wc":
            cmp_wc(v[1], g, where + "." + k)
        else:
            e = float(v[1]) if isinstance(v, list) else v
            need(type(g) is type(e) and g == e, f"{where}.{k}: value {g!r}, written {r_val(v)}")


def r_val(v):
    from .model import r_value
    return r_value(v)


def c_kind(t):
    c = t.get_c_type()
    return None if c is None else c.value


@judge("C02")
def _(c):
    o = B(c["b"])
    ps = o.problems()
    k, rb = real.attempt(real.build, c["b"])
    if ps:
        need(k == "err", f"accepted although {ps}")
        return
    need(k == "ok", f"a correct bundle is rejected: {rb!r}")
    for m, d, x in members(c["b"]):
        q = rmember(rb, m, d, x)
        need(c_kind(q.get_asn_type()) == kind_of(x["t"]), f"{d['name']}.{x['key']} {x['t']}: classified {c_kind(q.get_asn_type())}, is {kind_of(x['t'])}")
        w = q.get_with_components()
        need((w is None) == (x.get("wc") is None), f"{x['key']}: fixed values lost or invented")
        if w is not None:
            cmp_wc(x["wc"], w, x["key"])
    for m in c["b"]["mods"]:
        mod = rb.get_module(m["name"])
        for d in m["defs"]:
            if d["k"] == "simple":
                q = [z for z in mod.get_definitions() if z.get_type_name() == d["name"]][0]
                need(c_kind(q.get_asn_type()) == kind_of(d["t"]), f"{d['name']} {d['t']}: classified {c_kind(q.get_asn_type())}, is {kind_of(d['t'])}")


# ------------------------------------------------------------------ C03

@gen("C03")
def _(r):
    b = valid(r, mods=(1, 2), defs=(1, 3), members=(1, 4), ccsds=0, comments=.1, wc=.1, arr="cosmos", choice=.2)
    have = {d["name"] for m in b["mods"] for d in m["defs"]}
    for _ in range(r.randint(1, 3)):
        n = r.choice(sorted(RESERVED))
        if n in have:
            continue
        have.add(n)
        t = RESERVED[n][:]
        x = r.random()
        if x < .35:
            pass
        elif t[0] == "int":
            if x < .65:
                t[r.choice([1, 2])] += r.choice([-1, 1, 1, -1, 2, 256])
            else:
                t = r.choice(list(RESERVED.values()))[:]
        elif x < .7:
            t[r.choice([1, 2])] = r.choice(["0.0", "1.0", "-1.0", "3.39E38", "-3.39E38", "3.4E39", "1.0E308", "-1.0E308"])
        else:
            t = r.choice(list(RESERVED.values()))[:]
        if t[0] == "int" and t[1] > t[2]:
            t = RESERVED[n][:]
        if t[0] == "real" and float(t[1]) > float(t[2]):
            t = RESERVED[n][:]
        if r.random() < .05:
            t = ["bool"]
        m = r.choice(b["mods"])
        m["defs"].insert(r.randint(0, len(m["defs"])), {"k": "simple", "name": n, "t": t, "comment": pick_comment(r, .4)})
    if r.random() < .35:
        ms = [x for _, _, x in members(b)]
        t = r.choice([["null"], ["null"], ["arr", 3, ["null"]]])
        if ms and r.random() < .7:
            x = r.choice(ms)
            x["t"] = t
            x["wc"] = None
        else:
            m = r.choice(b["mods"])
            m["defs"].append({"k": "simple", "name": "Nu", "t": ["null"], "comment": pick_comment(r, .4)})
    return {"b": b}


def accept_iff(c):
    o = B(c["b"])
    ps = o.problems()
    k, rb = real.attempt(real.build, c["b"])
    need(k != "hang", "does not terminate")
    if ps:
        need(k == "err", f"accepted although {ps}")
        return o, None
    need(k == "ok", f"a correct bundle is rejected: {rb!r}")
    return o, rb


@judge("C03")
def _(c):
    accept_iff(c)


# ------------------------------------------------------------------ C04

@gen("C04")
def _(r):
    ds = []
    names = set()
    for j in range(r.randint(1, 2)):
        n = r.choice([1, 2, 3, 4, 5, 6]) if r.random() < .8 else r.randint(1, 30) if r.random() < .9 else r.choice([64, 99, 101, 128, 150, 256, 300])
        ps = list(range(n))
        x = r.random()
        r.shuffle(ps)
        if x < .3:
            pass
        elif x < .55:
            for _ in range(r.randint(1, 2)):
                ps[r.randrange(n)] = r.choice([r.randrange(-n, 2 * n), r.randrange(n), n, -1])
        elif x < .7 and n > 1:   # same sum, not a permutation
            i, k = r.sample(range(n), 2)
            e = r.randint(1, n)
            ps[i] += e
            ps[k] -= e
        elif x < .73 and n % 2:
            ps = [n // 2] * n
        elif x < .8:
            ps = [r.randrange(-n, n + 1) for _ in range(n)]
        else:
            ps = [None] * n
        keys = set()
        items = [{"key": uniq(r, LOW, keys, low), "pos": p, "comment": pick_comment(r, .1, False)} for p in ps]
        if 0 in ps and ps.count(0) == 1 and r.random() < .2:
            items[ps.index(0)]["pos"] = None
        if n > 1 and r.random() < .15:      # repeated item names are not the numbering's business
            for _ in range(r.randint(1, n)):
                i, k = r.sample(range(n), 2)
                items[i]["key"] = items[k]["key"]
        ds.append({"k": "enum", "name": uniq(r, CAP, names, cap), "comment": pick_comment(r, .2, False), "items": items})
    return {"b": {"mods": [{"name": "m", "comment": None, "cimp": None, "imports": [], "defs": ds}]}}


@judge("C04")
def _(c):
    for d in c["b"]["mods"][0]["defs"]:
        if enum_numbers(d) == "ambiguous":
            return
    o, rb = accept_iff(c)
    if rb is None:
        return
    for d, q in zip(c["b"]["mods"][0]["defs"], rb.get_modules()[0].get_definitions()):
        w = [(k, i) for i, k in enumerate(enum_numbers(d))]
        g = [(e.get_key(), e.get_pos()) for e in q.get_enum()]
        need(g == w, f"{d['name']}: items {g}, expected {w}")


# ------------------------------------------------------------------ C05

@gen("C05")
def _(r):
    if r.random() < .3:
        return {"b": valid(r, mods=(1, 3), defs=(3, 10), wc=.05, arr="c", choice=.2, comments=.1), "kind": r.choice(["cfs", "c", "binary"])}
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    names = r.sample(CAP, n)
    if r.random() < .3:
        used = set()
        names = [uniq(r, CAP, used, cap) for _ in range(n)]
    mode = r.choice(["dag", "dag", "chain", "any", "one", "revchain"])
    if r.random() < .03:
        n = r.choice([40, 70, 110, 150])
        used = set()
        names = [uniq(r, CAP, used, cap) for _ in range(n)]
        mode = r.choice(["dag", "chain", "one", "revchain"])
    defs = []
    for i in range(n):
        if r.random() < .15:
            defs.append({"k": "enum", "name": names[i], "comment": None, "items": [{"key": "a", "pos": None, "comment": None}, {"key": "b", "pos": None, "comment": None}]})
            continue
        if mode in ("dag", "one"):
            deps = [j for j in range(i) if r.random() < (.4 if n < 20 else 3 / n)]
        elif mode == "any":
            deps = [j for j in range(n) if r.random() < .8 / n]
        else:
            deps = [i - 1] if i else []
        ms = [{"key": f"d{j}", "t": (["ref", names[j]] if r.random() < .7 else ["arr", 2, ["ref", names[j]]]), "comment": None, "wc": None} for j in deps]
        r.shuffle(ms)
        if not ms or r.random() < .3:
            ms.insert(r.randint(0, len(ms)), {"key": "v", "t": ["int", 0, 255], "comment": None, "wc": None})
        k = "choice" if r.random() < .15 and deps and all(x["t"][0] == "ref" for x in ms) else "seq"
        defs.append({"k": k, "name": names[i], "comment": None, "m": ms})
    if mode == "one" and n > 1 and r.random() < .6:
        a, b = sorted(r.sample(range(n), 2))
        if defs[a]["k"] == "seq":
            defs[a]["m"].append({"key": "back", "t": ["ref", names[b]], "comment": None, "wc": None})
    if mode == "revchain":
        defs.reverse()
    elif mode != "chain":
        r.shuffle(defs)
    return {"b": {"mods": [{"name": "m", "comment": None, "cimp": None, "imports": [], "defs": defs}]}, "kind": r.choice(["cfs", "c", "binary"])}


@judge("C05")
def _(c):
    o, rb = accept(c)
    kind = c["kind"]
    bad = any(o.cyclic_types(m) for m in c["b"]["mods"])
    k, out = real.attempt(real.outputs, kind, rb)
    need(k != "hang", "the generator does not terminate")
    if bad:
        need(k == "err", "code is generated for types that depend on each other in a cycle")
        return
    if kind == "binary" and any(x.get("wc") for _, _, x in members(c["b"])):
        return
    need(k == "ok", f"generator fails on a correct bundle: {out!r}")
    for m in c["b"]["mods"]:
        h = header(out, kind, m["name"])
        names = h.names()
        own = {cname(d["name"]): d for d in m["defs"] if d["k"] != "simple"}
        need(sorted(names) == sorted(own), f"header of {m['name']} defines {names}, the module {sorted(own)}")
        for i, n in enumerate(names):
            d = own[n]
            if d["k"] in ("seq", "choice"):
                for x in d["m"]:
                    u = cname(tname(x["t"]))
                    need(u not in own or u in names[:i], f"{n} is defined before {u} which it uses")


# ------------------------------------------------------------------ C06

@gen("C06")
def _(r):
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
    from .model import MODS
    names = r.sample(MODS, n)
    mode = r.choice(["dag", "dag", "dag", "chain", "any", "star", "back"])
    if r.random() < .02:
        n = r.choice([12, 20, 35, 50])
        used = set()
        names = [uniq(r, MODS, used, low) for _ in range(n)]
    ms = []
    for i in range(n):
        if mode in ("dag", "back"):
            deps = [j for j in range(i) if r.random() < (r.choice([.2, .5, .9]) if n < 10 else 2 / n)]
        elif mode == "any":
            deps = [j for j in range(n) if r.random() < 1.0 / n]
        elif mode == "star":
            deps = [0] if i else []
        else:
            deps = [i - 1] if i else []
        r.shuffle(deps)
        imports = [[[f"T{j}"] + ([f"U{j}"] if r.random() < .3 else []), names[j]] for j in deps]
        if imports and r.random() < .1:
            j = deps[0]
            imports.append([[f"U{j}"], names[j]])
        ms.append({"name": names[i], "comment": None, "cimp": None, "imports": imports, "defs": [
            {"k": "seq", "name": f"T{i}", "comment": None, "m": [{"key": "v", "t": ["int", 0, 255], "comment": None, "wc": None}]},
            {"k": "enum", "name": f"U{i}", "comment": None, "items": [{"key": "a", "pos": None, "comment": None}]}]})
    if mode == "back" and n > 1:
        a, b = sorted(r.sample(range(n), 2))
        ms[a]["imports"].append([[f"T{b}"], names[b]])
    r.shuffle(ms)
    return {"b": {"mods": ms}}


@judge("C06")
def _(c):
    o, rb = accept(c)
    names = [m["name"] for m in c["b"]["mods"]]
    k, v = real.attempt(rb.get_modules_ordered)
    need(k != "hang", "ordering the modules does not terminate")
    k2, out = real.attempt(real.outputs, "c", rb)
    need(k2 != "hang", "generation does not terminate")
    if o.cyclic_modules():
        need(k == "err", "modules that import each other in a cycle are accepted")
        need(k2 == "err", "code is generated for modules that import each other in a cycle")
        return
    need(k == "ok", f"ordering fails on a correct bundle: {v!r}")
    order = [q.get_module_name() for q in v]
    need(sorted(order) == sorted(names), f"modules {names} are processed as {order}")
    for m in c["b"]["mods"]:
        for _, i in m["imports"]:
            need(order.index(m["name"]) < order.index(i), f"{i} is processed before {m['name']} which imports it: {order}")
    need(k2 == "ok", f"generation fails: {out!r}")
    need(sorted(out) == sorted([cname(n) + e for n in names for e in (".h", ".c")]), f"files {sorted(out)} for modules {names}")
    need([q.get_module_name() for q in rb.get_modules()] == names, "the bundle's module list was changed")


# ------------------------------------------------------------------ C07

def rename(b, old, new):
    for m in b["mods"]:
        for d in m["defs"]:
            if d["k"] in ("seq", "choice"):
                for x in d["m"]:
                    if x["t"] == ["ref", old]:
                        x["t"] = ["ref", new]
                    elif x["t"][0] == "arr" and x["t"][2] == ["ref", old]:
                        x["t"][2] = ["ref", new]


@gen("C07")
def _(r):
    b = valid(r, mods=(1, 4), defs=(2, 10), members=(1, 3), comments=.05, wc=.1, arr="cosmos", choice=.15)
    x = r.random()
    if x < .4:
        alld = [(m, d) for m in b["mods"] for d in m["defs"] if d["name"] not in RESERVED]
        if len(alld) > 1:
            (m1, d1), (m2, d2) = r.sample(alld, 2)
            # references keep naming a defined type: only the duplicate definition is wrong
            d2c = copy.deepcopy(d2) if r.random() < .5 else {"k": "simple", "name": "", "t": ["bool"], "comment": None}
            d2c["name"] = d1["name"]
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                m2["defs"].insert(r.randint(0, len(m2["defs"])), copy.deepcopy(d2c))
                m2 = r.choice([m2, r.choice(b["mods"])])
        return {"b": b, "mode": "types"}
    if x < .55:
        return {"b": b, "mode": "types"}
    names = [m["name"] for m in b["mods"]]
    lst = names[:]
    r.shuffle(lst)
    if r.random() < .35:
        n = r.choice(names)
        for _ in range(r.choice([1, 1, 2, 3])):
            lst.insert(r.randint(0, len(lst)), n)
            n = r.choice([n, n, r.choice(names)])
    elif r.random() < .4:
        n = r.choice(names)
        for k in range(r.choice([1, 1, 2, 3])):
            extra = {"name": n, "comment": None, "cimp": None, "imports": [],
                     "defs": [{"k": "simple", "name": f"Zzz-extra{k}", "t": ["bool"], "comment": None}]}
            b["mods"].insert(r.randint(0, len(b["mods"])), extra)
            n = r.choice([n, n, r.choice(names)])
    return {"b": b, "mode": "mods", "list": lst, "kind": r.choice(["cfs", "c", "binary"])}


@judge("C07")
def _(c):
    if c["mode"] == "types":
        accept_iff(c)
        return
    names = [m["name"] for m in c["b"]["mods"]]
    k, v = real.attempt(real.build_config, c["kind"], c["b"], list(c["list"]))
    need(k != "hang", "does not terminate")
    if len(set(names)) < len(names) or len(set(c["list"])) < len(c["list"]):
        need(k == "err", f"modules {names}, listed {c['list']}: a duplicate module name is accepted ({c['kind']})")
    elif not B(c["b"]).problems() and set(names) == set(c["list"]):
        need(k == "ok", f"a correct run is rejected: {v!r}")


# ------------------------------------------------------------------ C08

@gen("C08")
def _(r):
    b = valid(r, mods=(1, 4), defs=(2, 8), members=(1, 5), comments=.05, wc=.05, arr="cosmos", choice=.15, split=.2)
    x = r.random()
    ms = list(members(b))
    if x < .3 and ms:
        m, d, y = r.choice(ms)
        if r.random() < .4:
            # the last members of a long or of any structure
            z = r.random()
            ds = [t for t in ms if (z < .4 or (len(t[1]["m"]) > 8 if z < .7 else t[1]["k"] == "choice")) and t[2] is t[1]["m"][-1]]
            m, d, y = r.choice(ds or ms)
        if not y["wc"]:
            alln = [q["name"] for mm in b["mods"] for q in mm["defs"]]
            n = r.choice(["Undefined", "Undefined-x", r.choice(alln), r.choice(alln), r.choice(sorted(RESERVED))])
            y["t"] = ["ref", n] if r.random() < .8 else ["arr", 2, ["ref", n]]
    elif x < .45:
        m = r.choice(b["mods"])
        if m["imports"]:
            it = r.choice(m["imports"])
            y = r.random()
            if y < .4:
                it[0].insert(r.randint(0, len(it[0])), r.choice(["Nope", "A", "Foo-bar"]))
            elif y < .7 and len(it[0]) > 1:
                it[0].remove(r.choice(it[0]))
            elif y < .85:
                m["imports"].remove(it)
            else:
                it[1] = r.choice(["nowhere", r.choice(b["mods"])["name"]])
        else:
            m["imports"].append([["Xa"], r.choice(["nowhere", r.choice(b["mods"])["name"]])])
    elif x < .8:
        names = [m["name"] for m in b["mods"]]
        r.shuffle(names)
        y = r.random()
        if y < .3:
            names.append(r.choice(["nowhere", names[0] + "-x"]))
        elif y < .6 and len(names) > 1:
            names.pop()
        elif y < .7:
            names[0] = "nowhere"
        return {"b": b, "mode": "list", "list": names, "kind": r.choice(["cfs", "c", "binary"])}
    return {"b": b, "mode": "types"}


@judge("C08")
def _(c):
    if c["mode"] == "types":
        accept_iff(c)
        return
    o = B(c["b"])
    k, v = real.attempt(real.build_config, c["kind"], c["b"], list(c["list"]))
    names = [m["name"] for m in c["b"]["mods"]]
    if o.problems() or sorted(names) != sorted(c["list"]):
        need(k == "err", f"modules {names}, listed {c['list']}, problems {o.problems()}: accepted ({c['kind']})")
    else:
        need(k == "ok", f"a correct run is rejected: {v!r}")


# ------------------------------------------------------------------ C09

def all_wcs(wc):
    yield wc
    for k, v in wc:
        if isinstance(v, list) and v[0] == "wc":
            yield from all_wcs(v[1])


@gen("C09")
def _(r):
    b = valid(r, mods=(1, 3), defs=(4, 9), members=(1, 5), comments=.05, wc=.8, max_wc=3, simple=.1, enums=.1, ccsds=.4, arr="c", choice=.1, split=.2)
    ms = [x for _, d, x in members(b) if x.get("wc") and d["k"] == "seq"]
    if ms and r.random() < .6:
        x = r.choice(ms)
        wcs = list(all_wcs(x["wc"]))
        w = r.choice(wcs[-2:] if r.random() < .5 else wcs)
        e = r.choice(w)
        y = r.random()
        if y < .6:
            e[0] = r.choice(LOW + [e[0] + "-x", "primary"])
        elif y < .8:
            e[1] = ["wc", [["a", 1]]]
        else:
            w.insert(r.randint(0, len(w)), [r.choice(LOW), 1])
    elif r.random() < .15:
        ls = [x for _, d, x in members(b) if d["k"] == "seq" and x["t"][0] != "null"]
        if ls:
            r.choice(ls)["wc"] = [["a", 1]]
    return {"b": b}


@judge("C09")
def _(c):
    accept_iff(c)


# ------------------------------------------------------------------ C10

@gen("C10")
def _(r):
    k = r.choice(["cfs", "cfs", "c", "binary"])
    b = valid(r, arr="c", wc=0 if k == "binary" else .2, ccsds=0 if k == "binary" else .1, choice=.06, split=.2)
    return {"b": b, "kind": k}


@judge("C10")
def _(c):
    o, rb = accept(c)
    out = gen_out(c["kind"], rb)
    for m in c["b"]["mods"]:
        h = header(out, c["kind"], m["name"])
        direct = {m["name"]} | {x for _, x in m["imports"]}
        for d in m["defs"]:
            if d["k"] != "seq":
                continue
            s = h.get(cname(d["name"]))
            need(len(s) == 1 and s[0][0] == "struct", f"{d['name']}: {len(s)} definitions in the header")
            need(s[0][3], f"{d['name']} is not packed")
            g = s[0][2]
            e = [o.cfield(x) for x in d["m"]]
            need(len(g) == len(e), f"{d['name']}: fields {g}, expected {e}")
            for a, b2 in zip(g, e):
                need(a == b2, f"{d['name']}: field {a}, expected {b2}")


# ------------------------------------------------------------------ C11

@gen("C11")
def _(r):
    b = valid(r, mods=(1, 2), defs=(2, 6), wc=.6, max_wc=3, ccsds=.9, choice=.02, comments=.05, simple=.15, enums=.1)
    if r.random() < .25:
        seqs = [d for m in b["mods"] for d in m["defs"] if d["k"] == "seq"]
        pri = [d for d in seqs if [x["key"] for x in d["m"]] == ["packet-identification"]]
        pid = [d for d in seqs if [x["key"] for x in d["m"]] == CCSDS]
        t = r.choice(pri + pid) if pri + pid else None
        if t:
            n = r.choice(["seq-flags", "packet-identification-x", "version", "primary"])
            t["m"].insert(r.randint(0, len(t["m"])), {"key": n, "t": ["int", 0, 7], "comment": None, "wc": None})
            want = "primary" if t in pri else "packet-identification"
            for _, d, x in members(b):
                if x.get("wc"):
                    for w in all_wcs(x["wc"]):
                        for e in w:
                            if e[0] == want and isinstance(e[1], list) and e[1][0] == "wc" and r.random() < .6:
                                e[1][1].insert(r.randint(0, len(e[1][1])), [n, r.randrange(8)])
    return {"b": b}


@judge("C11")
def _(c):
    o, rb = accept(c)
    k, out = real.attempt(real.outputs, "cfs", rb)
    try:
        for m in c["b"]["mods"]:
            o.defines(m, [d["name"] for d in m["defs"]])
    except Reject as e:
        need(k == "err", f"unexpected name {e} inside a primary header is accepted")
        return
    need(k == "ok", f"cfs generation fails on a correct bundle: {out!r}")
    for m in c["b"]["mods"]:
        f = cname(m["name"]) + "_msgids.h"
        need(f in out, f"no file {f}")
        h = real.Header(out[f].decode())
        order = [n for n in real.Header(out[cname(m["name"]) + "_msg.h"].decode()).names()]
        by = {cname(d["name"]): d["name"] for d in m["defs"]}
        w = o.defines(m, [by[n] for n in order if n in by])
        need(h.defines == w, f"{f}: {h.defines}, expected {w}")
        need(not real.Header(out[cname(m["name"]) + "_msg.h"].decode()).defines, "constants in the message header")


# ------------------------------------------------------------------ C12

@gen("C12")
def _(r):
    g = Gen(r, mods=(1, 2), defs=(2, 6), wc=.8, ccsds=0, choice=.02, comments=.5 if r.random() < .25 else .02, simple=.12, enums=.04, own_only=r.random() < .9, binary=True, strs=.02, arr="std")
    g.max_wc_n = r.choice([1, 2, 3])
    enc = r.random() < .8
    if enc:
        old = g.leaf

        def leaf(mi):
            t = old(mi)
            for _ in range(50):
                if t[0] == "real" or (t[0] == "int" and (t[1] < 0 or max(1, t[2].bit_length()) in (8, 16, 32, 64))) or (t[0] == "ref" and t[1] in RESERVED):
                    return t
                t = old(mi)
            return ["int", 0, 255]
        g.leaf = leaf
    b = g.bundle()
    if enc:   # a member with own fixed values cannot be fixed again
        own = {}
        for m, d, x in members(b):
            if x.get("wc"):
                own.setdefault(d["name"], set()).add(x["key"])
        seqs = {d["name"]: d for m in b["mods"] for d in m["defs"] if d["k"] == "seq"}

        def clean(wc, tn):
            out = []
            for k, v in wc:
                if k in own.get(tn, ()):
                    continue
                if isinstance(v, list) and v[0] == "wc":
                    y = [q for q in seqs[tn]["m"] if q["key"] == k][0]
                    w = clean(v[1], tname(y["t"]))
                    if w:
                        out.append([k, ["wc", w]])
                else:
                    out.append([k, v])
            return out
        for m, d, x in members(b):
            if x.get("wc"):
                x["wc"] = clean(x["wc"], tname(x["t"])) or None
    if r.random() < .12:
        ws = [w for _, d, x in members(b) if x.get("wc") for w in all_wcs(x["wc"])]
        es = [e for w in ws for e in w if isinstance(e[1], int) and not isinstance(e[1], bool)]
        if es:
            r.choice(es)[1] = r.choice([256, 65536, 2 ** 32, 2 ** 64, -2 ** 63 - 1, -129, 128, ["f", "1.5"]])
    return {"b": b, "endian": r.choice(["little-endian", "big-endian"])}


@judge("C12")
def _(c):
    o, rb = accept(c)
    want, rej = {}, None
    for m in c["b"]["mods"]:
        for d in m["defs"]:
            if d["k"] == "seq":
                try:
                    i = o.image(m, d, c["endian"])
                except Reject as e:
                    rej = rej or f"{d['name']}: {e}"
                    continue
                if i is not None:
                    want[lower1(cname(d["name"])) + ".bin"] = i
    with real.Dir() as dd:
        k, out = real.attempt(real.generate, "binary", rb, dd, endian=c["endian"])
        got = {f: x for f, x in real.read_dir(dd).items() if f.endswith(".bin")}
    if rej:
        need(k == "err", f"{rej} has no exact encoding but the run succeeds with {sorted(got)}")
        for f in got:
            need(f in want and got[f] == want[f], f"{f} is written with {got[f].hex()}")
        return
    need(k == "ok", f"binary generation fails on a correct bundle: {out!r}")
    need(sorted(got) == sorted(want), f"images {sorted(got)}, expected {sorted(want)}")
    for f in got:
        need(got[f] == want[f], f"{f} ({c['endian']}): {got[f].hex()}, expected {want[f].hex()}")


# ------------------------------------------------------------------ C13 / C14 / C19

def cosmos_case(r, **k):
    b = valid(r, arr="cosmos", choice=0, max_wc=3, **k)
    m = r.choice(b["mods"])
    seqs = [d["name"] for d in m["defs"] if d["k"] == "seq"]
    msgs = [r.choice(seqs) for _ in range(r.choice([1, 1, 2, 3]))] if seqs else []
    if msgs and r.random() < .6:
        msgs = list(dict.fromkeys(msgs))
    return b, m["name"], msgs


@gen("C13")
def _(r):
    b, mod, msgs = cosmos_case(r, wc=.5, ccsds=.5, defs=(2, 9))
    if r.random() < .08:
        msgs.insert(r.randint(0, len(msgs)), r.choice(["Unknown", "Unknown-message", "x"]))
    return {"b": b, "mod": mod, "msgs": msgs, "target": r.choice(["o", "TARGET", "my-sat"])}


def cosmos_out(c, rb):
    return real.attempt(real.outputs, "cosmos", rb, mod=c["mod"], msgs=c["msgs"], out=c.get("target", "o"))


def dup_given(o, name):
    return False


@judge("C13")
def _(c):
    o, rb = accept(c)
    m = o.byname[c["mod"]]
    own = {d["name"] for d in m["defs"]}
    k, out = cosmos_out(c, rb)
    t = c.get("target", "o")
    if any(x not in own for x in c["msgs"]):
        need(k == "err", f"unknown message among {c['msgs']} is accepted")
        return
    try:
        want = [(x, o.items(x)) for x in c["msgs"]]
    except Reject:
        raise Skip("not expressible")
    need(k == "ok", f"COSMOS generation fails on a correct bundle: {out!r}")
    need(list(out) == [t + ".txt"], f"files {list(out)}")
    try:
        pk = real.read_cosmos(out[t + ".txt"].decode())
    except (ValueError, TypeError) as e:
        raise Fail(f"unreadable output: {e}")
    need([p["name"] for p in pk] == c["msgs"], f"packets {[p['name'] for p in pk]}, requested {c['msgs']}")
    for p, (n, items) in zip(pk, want):
        need(p["target"] == t and p["order"] == "BIG_ENDIAN", f"packet header {p['target']} {p['order']}")
        cm = (o.d(n).get("comment") or {}).get("text", "")
        need(p["comment"] == cm, f"packet comment {p['comment']!r}, written {cm!r}")
        need([i["name"] for i in p["items"]] == [i["name"] for i in items], f"{n}: items {[i['name'] for i in p['items']]}, fields {[i['name'] for i in items]}")
        for g, w in zip(p["items"], items):
            wh = f"{n}.{w['name']}"
            need(g["bits"] == w["bits"], f"{wh}: {g['bits']} bits, is {w['bits']}")
            need(g["kind"] == w["kind"], f"{wh}: kind {g['kind']}, is {w['kind']}")
            need(g["value"] == w["value"], f"{wh}: value {g['value']!r}, is {w['value']!r}")
            cmd = "APPEND_ARRAY_ITEM" if w["array"] else "APPEND_ID_ITEM" if w["value"] != "" else "APPEND_ITEM"
            need(g["cmd"] == cmd, f"{wh}: {g['cmd']}, is {cmd}")
            need(g["comment"] == w["comment"], f"{wh}: comment {g['comment']!r}, is {w['comment']!r}")
            need(g["unit"] == w["unit"], f"{wh}: unit {g['unit']!r}, is {w['unit']!r}")
            need(g["endian"] == ("LITTLE_ENDIAN" if w["le"] else ""), f"{wh}: endianness {g['endian']!r}, marked {w['le']}")
            lim = None if w["limits"] is None else (w["limits"][0],) * 2 + (w["limits"][1],) * 2
            need(g["limits"] == lim, f"{wh}: limits {g['limits']}, is {lim}")
            if w["kind"] == "UINT" and not w["states"]:
                pass
            else:
                need(g["states"] == w["states"], f"{wh}: states {g['states']}, is {w['states']}")


CW = {"float": (32, "real"), "double": (64, "real"), "char": (8, "text")}
for _b in (8, 16, 32, 64):
    CW[f"uint{_b}_t"] = (_b, "unsigned")
    CW[f"int{_b}_t"] = (_b, "signed")
KC = {"UINT": "unsigned", "INT": "signed", "FLOAT": "real", "STRING": "text"}


def flat_c(structs, enums, name):
    out = []
    for t, f, bits, n in structs[name]:
        if t in structs:
            need(n is None, "array of structures")
            out += flat_c(structs, enums, t)
        elif t in CW:
            w, k = CW[t]
            if k == "text":
                out.append((f, w * n, k, None))
            else:
                out.append((f, bits if bits is not None else w, k, n))
        elif t in enums:
            out.append((f, bits, "unsigned", n))
        else:
            out.append((f, None, "?" + t, n))
    return out


@gen("C14")
def _(r):
    b = valid(r, arr="std", choice=0, wc=.1, ccsds=.2, comments=.05, simple=.3)
    m = r.choice(b["mods"])
    return {"b": b, "mod": m["name"], "msgs": [d["name"] for d in m["defs"] if d["k"] == "seq"], "kind": r.choice(["cfs", "c"])}


@judge("C14")
def _(c):
    o, rb = accept(c)
    out = gen_out(c["kind"], rb)
    structs, enums = {}, set()
    for m in c["b"]["mods"]:
        for d in header(out, c["kind"], m["name"]).defs:
            if d[0] == "struct":
                structs[d[1]] = d[2]
            elif d[0] == "enum":
                enums.add(d[1])
    k, co = cosmos_out(c, rb)
    need(k == "ok", f"COSMOS generation fails on a correct bundle: {co!r}")
    try:
        pk = real.read_cosmos(co["o.txt"].decode())
    except (ValueError, TypeError, KeyError) as e:
        raise Fail(f"unreadable output: {e}")
    for p in pk:
        need(cname(p["name"]) in structs, f"no C struct for {p['name']}")
        fl = flat_c(structs, enums, cname(p["name"]))
        cs = [(cname(i["name"]), i["bits"], KC.get(i["kind"]), i) for i in p["items"]]
        need(len(fl) == len(cs), f"{p['name']}: {len(fl)} C fields, {len(cs)} COSMOS items")
        for a, b2 in zip(fl, cs):
            need(a[:3] == b2[:3], f"{p['name']}: C field {a[:3]}, COSMOS item {b2[:3]}")
            if a[3] is not None:
                need(b2[3]["value"] == str(a[3] * a[1]), f"{p['name']}.{a[0]}: C array of {a[3]} x {a[1]} bits, COSMOS total {b2[3]['value']}")
            else:
                need(b2[3]["cmd"] != "APPEND_ARRAY_ITEM", f"{p['name']}.{a[0]} is an array only in COSMOS")


@gen("C19")
def _(r):
    b, mod, msgs = cosmos_case(r, wc=.1, ccsds=.1, enums=.5, simple=.05, comments=.2)
    m = [x for x in b["mods"] if x["name"] == mod][0]
    es = [d["name"] for d in m["defs"] if d["k"] == "enum"]
    if es and not msgs:
        m["defs"].append({"k": "seq", "name": "Zmsg", "comment": None, "m": [{"key": f"e{i}", "t": ["ref", n], "comment": None, "wc": None} for i, n in enumerate(es)]})
        msgs = ["Zmsg"]
    return {"b": b, "mod": mod, "msgs": msgs, "kind": r.choice(["cfs", "c"])}


@judge("C19")
def _(c):
    o, rb = accept(c)
    out = {}
    if not any(x["t"][0] == "arr" for _, _, x in members(c["b"])):
        out = gen_out(c["kind"], rb)
    else:
        k, v = real.attempt(real.outputs, c["kind"], rb)
        if k == "ok":
            out = v
    for m in c["b"]["mods"] if out else []:
        h = header(out, c["kind"], m["name"])
        for d in m["defs"]:
            if d["k"] == "enum":
                g = h.get(cname(d["name"]))
                need(len(g) == 1 and g[0][0] == "enum", f"enumeration {d['name']}: {len(g)} definitions")
                need(g[0][3], f"enumeration {d['name']} is not packed")
                w = [(cname(k), str(i)) for i, k in enumerate(enum_numbers(d))]
                need(g[0][2] == w, f"enumeration {d['name']}: C constants {g[0][2]}, items {w}")
    try:
        want = [(x, o.items(x)) for x in c["msgs"]]
    except Reject:
        raise Skip("")
    k, co = cosmos_out(c, rb)
    need(k == "ok", f"COSMOS generation fails on a correct bundle: {co!r}")
    try:
        pk = real.read_cosmos(co["o.txt"].decode())
    except (ValueError, TypeError, KeyError) as e:
        raise Fail(f"unreadable output: {e}")
    need([p["name"] for p in pk] == c["msgs"], "packets")
    for p, (n, items) in zip(pk, want):
        need(len(p["items"]) == len(items), f"{n}: {len(p['items'])} items, {len(items)} fields")
        for g, w in zip(p["items"], items):
            need(g["states"] == w["states"], f"{n}.{w['name']}: states {g['states']}, is {w['states']}")


# ------------------------------------------------------------------ C15

@gen("C15")
def _(r):
    b = valid(r, arr="std", choice=.03, wc=.4, ccsds=.5, comments=.15, mods=(1, 3), binary=True)
    steps = []
    for _ in range(r.randint(2, 5)):
        k = r.choice(["cfs", "c", "binary", "cosmos", "cosmos"])
        s = {"kind": k}
        if k == "binary":
            s["endian"] = r.choice(["little-endian", "big-endian"])
        if k == "cosmos":
            m = r.choice(b["mods"])
            seqs = [d["name"] for d in m["defs"] if d["k"] == "seq"]
            s["mod"] = m["name"]
            s["msgs"] = [r.choice(seqs) for _ in range(r.choice([1, 2, 3]))] if seqs else []
        steps.append(s)
    if r.random() < .5:
        steps.append(dict(r.choice(steps)))
    return {"b": b, "steps": steps, "twin": int(r.random() < .15)}


def step(rb, s):
    s = dict(s)
    return real.attempt(real.outputs, s.pop("kind"), rb, **s)


@judge("C15")
def _(c):
    o, rb = accept(c)
    before = real.snapshot([rb.modules, rb.simple_def_uses])
    for i, s in enumerate(c["steps"]):
        k, out = step(rb, s)
        after = real.snapshot([rb.modules, rb.simple_def_uses])
        need(after == before, f"step {i} {s}: the model was changed")
        _, fresh = accept(c)
        k2, out2 = step(fresh, s)
        need(k == k2, f"step {i} {s}: {k} after other runs, {k2} on a fresh model")
        if k == "ok":
            need(out == out2, f"step {i} {s}: the output differs from that of a fresh model in {[f for f in out if out.get(f) != out2.get(f)]}")
        if s["kind"] == "cosmos" and k == "ok" and len(s["msgs"]) > 1:
            parts = b""
            for x in s["msgs"]:
                kk, oo = step(rb, dict(s, msgs=[x]))
                need(kk == "ok", f"{x} alone fails")
                parts += oo["o.txt"].split(b"\n", 1)[1]
            need(parts == out["o.txt"].split(b"\n", 1)[1], f"the packets of {s['msgs']} differ from those generated one by one")
    if not c.get("twin", 1):
        return
    quick = fast.FAST
    mine = twin.digests(c, quick)
    fast.FAST = quick
    for seed in twin.SEEDS:
        other = twin.ask(c, quick, seed)
        for i, (x, y) in enumerate(zip(mine or [], other or [])):
            need(x == y, f"step {i} {c['steps'][i]}: another run of the program writes other output (PYTHONHASHSEED={seed}): {[f for f in x[1] if x[1].get(f) != y[1].get(f)]}")


# ------------------------------------------------------------------ C16

@gen("C16")
def _(r):
    return {"b": valid(r, mods=(1, 3), defs=(2, 8), wc=.8, ccsds=.5, max_wc=1, arr="c", comments=.1, choice=.03, simple=.15, enums=.1)}


@judge("C16")
def _(c):
    o, rb = accept(c)
    out = gen_out("c", rb)
    for m in c["b"]["mods"]:
        h = header(out, "c", m["name"])
        f = cname(m["name"]) + ".c"
        need(f in out, f"no file {f}")
        src = out[f].decode()
        try:
            got = real.read_init(src)
        except ValueError as e:
            raise Fail(f"{f}: {e}")
        want = {}
        for d in m["defs"]:
            if d["k"] == "seq":
                i = o.inits(d)
                if i:
                    want[cname(d["name"])] = i
        order = [n for n in h.names() if n in want]
        w = [(n, lower1(n), want[n]) for n in order]
        need(got == w, f"{f}: {got}, expected {w}")
        decl = [(d[1], d[2]) for d in h.defs if d[0] == "var"]
        need(decl == [(n, lower1(n)) for n in order], f"header declares {decl}, expected {order}")
        inc = re.findall(r'^#include\s+"(.*)"\s*$', src, flags=re.M)
        need(inc == ([cname(m["name"]) + ".h"] if order else []) or (not order and inc in ([], [cname(m["name"]) + ".h"])), f"{f} includes {inc}")


# ------------------------------------------------------------------ C17

@gen("C17")
def _(r):
    k = r.choice(["cfs", "c", "binary"])
    return {"b": valid(r, mods=(1, 4), defs=(2, 9), wc=0 if k == "binary" else .2, ccsds=0 if k == "binary" else .1, comments=.5, arr="c", choice=.1), "kind": k}


@judge("C17")
def _(c):
    o, rb = accept(c)
    kind = c["kind"]
    out = gen_out(kind, rb)
    files = set()
    guards = {}
    for m in c["b"]["mods"]:
        n = cname(m["name"])
        files |= {n + "_msg.h", n + "_msgids.h"} if kind == "cfs" else {n + ".h", n + ".c"} if kind == "c" else {n + ".h"}
    need({f for f in out if not f.endswith(".bin")} == files, f"files {sorted(out)}, expected {sorted(files)}")
    for f in sorted(files):
        if not f.endswith(".h"):
            continue
        h = real.Header(out[f].decode())
        need(h.guard and h.guard == h.endguard and h.n_if == 1 and h.n_endif == 1, f"{f}: include guard {h.guard} / {h.endguard}")
        need(f.replace(".", "_").upper() in h.guard, f"{f}: guard {h.guard} is not named after the file")
        need(h.guard not in guards, f"{f} and {guards.get(h.guard)} share the guard {h.guard}")
        guards[h.guard] = f
        need(not h.rest, f"{f}: unexpected text {h.rest[:80]!r}")
    for m in c["b"]["mods"]:
        f = hfile(kind, m["name"])
        h = real.Header(out[f].decode())
        uses = re.search(r"\bu?int(8|16|32|64)_t\b", h.body) is not None
        need(not uses or "<stdint.h>" in h.includes, f"{f}: uses a stdint type without including stdint.h")
        inc = [x for x in h.includes if x.startswith('"')]
        w = ['"' + hfile(kind, x) + '"' for _, x in m["imports"]]
        need(inc == w, f"{f}: includes {inc}, imports {w}")
        for x in inc:
            need(x.strip('"') in out, f"{f} includes {x} which is not generated")
        need(all(x in ("<stdint.h>", "<stdbool.h>") or x.startswith('"') for x in h.includes) and len(set(h.includes)) == len(h.includes), f"{f}: includes {h.includes}")
        own = sorted(cname(d["name"]) for d in m["defs"] if d["k"] != "simple")
        need(sorted(h.names()) == own, f"{f}: defines {h.names()}, the module {own}")
        txt = out[f].decode()
        for d in m["defs"]:
            g = h.get(cname(d["name"]))
            if d["k"] in ("seq", "choice"):
                need([x[1] for x in g[0][2]] == [cname(x["key"]) for x in d["m"]], f"{f}: members of {d['name']}")
                for x in d["m"]:
                    check_comment(f, txt, x.get("comment"))
            elif d["k"] == "enum":
                need(len(g[0][2]) == len(d["items"]), f"{f}: items of {d['name']}")
                for x in d["items"]:
                    check_comment(f, txt, x.get("comment"))
            if d["k"] != "simple" and (d.get("comment") or {}).get("text"):
                need("/* " + d["comment"]["text"] + " */" in txt, f"{f}: comment of {d['name']} is missing")
            # notes on simple types are only made when used, see code
        if (m.get("comment") or {}).get("text"):
            need(m["comment"]["text"] in txt, f"{f}: the module comment is missing")
        if m.get("cimp") and m["cimp"].get("text"):
            need("// " + m["cimp"]["text"] in txt, f"{f}: the import comment is missing")
        pos = [re.search(r"(\}\s*__attribute__\(\(packed\)\)\s*|union\s+)" + n + r"\b", txt).start() for n in h.names()]
        firstdef = min(pos) if pos else len(txt)
        for x in h.includes:
            need(txt.index("#include " + x) < firstdef, f"{f}: include {x} after a definition")


def check_comment(f, txt, c):
    if not c:
        return
    s = ("[" + c["unit"] + "] " if c.get("unit") else "") + (c.get("text") or "")
    if s.strip():
        need("// " + s.rstrip() in txt, f"{f}: comment {s!r} is missing")


# ------------------------------------------------------------------ C18

@gen("C18")
def _(r):
    b = valid(r, mods=(1, 4), defs=(3, 10), arr=r.choice(["c", "cosmos"]), choice=.05, wc=.15, comments=.05, split=.2)
    for _, d, x in members(b):
        if d["k"] == "seq" and not x["wc"] and r.random() < .12:
            # arrays of arrays, of strings and of built-in types
            x["t"] = ["arr", r.choice([0, 1, 2, 3, 7, 100]), x["t"]]
    # members that are a choice
    for m in b["mods"]:
        for c in [d["name"] for d in m["defs"] if d["k"] == "choice"]:
            for d in m["defs"]:
                if d["k"] == "seq" and r.random() < .3 and d["name"] not in reach(b, c):
                    x = r.choice(d["m"])
                    if not x["wc"] and not any(fixed(z["wc"], x["key"]) for _, _, z in members(b)):
                        x["t"] = ["ref", c] if r.random() < .8 else ["arr", 2, ["ref", c]]
    return {"b": b}


def fixed(wc, key):
    """is a key used in a block of fixed values"""
    return bool(wc) and key in str(wc)


def reach(b, n):
    """the names that the definition of a name uses, and what they use"""
    by = {d["name"]: d for m in b["mods"] for d in m["defs"]}
    todo, seen = [n], set()
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            for x in by.get(n, {}).get("m", ()):
                t = x["t"]
                while t[0] == "arr":
                    t = t[2]
                if t[0] == "ref":
                    todo.append(t[1])
    return seen


@judge("C18")
def _(c):
    o, rb = accept(c)
    need([q.get_module_name() for q in rb.get_modules()] == [m["name"] for m in c["b"]["mods"]], "modules of the bundle")
    real_defs = {}
    for m in c["b"]["mods"]:
        q = rb.get_module(m["name"])
        need([d.get_type_name() for d in q.get_definitions()] == [d["name"] for d in m["defs"]], f"definitions of {m['name']}")
        for d in q.get_definitions():
            real_defs[d.get_type_name()] = d
        g = [x.get_module_name() for x in q.get_imported_modules()]
        need(g == [x for _, x in m["imports"]], f"{m['name']} has the imported modules {g}, imports {m['imports']}")
        for x in q.get_imported_modules():
            need(any(x is z for z in rb.get_modules()), "an imported module is not the bundle's")
        need([i.get_definitions() for i in q.get_import_items()] == [ns for ns, _ in m["imports"]], "import items changed")
    for m, d, x in members(c["b"]):
        if d["k"] == "choice":
            continue
        t = rmember(rb, m, d, x).get_asn_type()
        w = x["t"]
        while w[0] == "arr":
            a = t.get_type()
            need(type(a).__name__ == "Array" and a.get_length() == w[1], f"{d['name']}.{x['key']}: array lost")
            t, w = a.get_asn_type(), w[2]
        need(t.get_type_name() == tname(w), f"{d['name']}.{x['key']}: type name {t.get_type_name()}, written {tname(w)}")
        if w[0] == "ref":
            need(t.get_type() is real_defs.get(w[1]), f"{d['name']}.{x['key']}: {w[1]} is linked to {t.get_type()!r}")
        elif w[0] == "str":
            need(type(t.get_type()).__name__ == "Asn1String" and t.get_type().get_length() == w[2], f"{d['name']}.{x['key']}: string lost")
        else:
            need(t.get_type() is None, f"{d['name']}.{x['key']}: built-in type linked to {t.get_type()!r}")
        if w[0] in ("int", "real") and len(w) > 1:
            cv = int if w[0] == "int" else float
            need(t.get_begin() == cv(w[1]) and t.get_end() == cv(w[2]), f"{d['name']}.{x['key']}: range {t.get_begin()}..{t.get_end()}, written {w}")
    for m in c["b"]["mods"]:
        for d in m["defs"]:
            if d["k"] == "choice" or (d["k"] == "seq" and contains(o, ["ref", d["name"]])):
                continue
            k, v = real.attempt(real_defs[d["name"]].get_size_bits)
            w = o.width(["ref", d["name"]])
            need(k == "ok" and v == w, f"size of {d['name']} is {v!r}, members add up to {w}")
    for m, d, x in members(c["b"]):
        if d["k"] == "seq" and not contains(o, x["t"]):
            k, v = real.attempt(rmember(rb, m, d, x).get_size_bits)
            w = o.width(x["t"])
            need(k == "ok" and v == w, f"size of {d['name']}.{x['key']} is {v!r}, is {w}")
