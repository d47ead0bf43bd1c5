"""Abstract ASN.1 bundles (plain JSON data), their random generation and their rendering as text.

bundle  {'mods': [module]}
module  {'name', 'comment', 'cimp', 'imports': [[[type names], module]], 'defs': [def]}
def     {'k': 'seq'|'choice', 'name', 'comment', 'm': [member]}
        {'k': 'enum', 'name', 'comment', 'items': [{'key', 'pos', 'comment': comment}]}
        {'k': 'simple', 'name', 't': type, 'comment'}
member  {'key', 't', 'comment', 'wc': [[key, value]] | None}
type    ['int', lo, hi] ['int'] ['real', 'lo', 'hi'] ['real'] ['bool'] ['str', kind, n] ['arr', n, type] ['ref', name] ['null']
value   int | bool | ['f', literal] | ['wc', [[key, value]]]
comment None | {'unit': str, 'text': str, 'le': bool}
"""
import sys
import zlib

RESERVED = {}
for _b in (8, 16, 32, 64):
    RESERVED[f"Int{_b}-t"] = ["int", -2 ** (_b - 1), 2 ** (_b - 1) - 1]
    RESERVED[f"Uint{_b}-t"] = ["int", 0, 2 ** _b - 1]
FMAX = 3.4e38
DMAX = sys.float_info.max
RESERVED["Float"] = ["real", "-3.4E38", "3.4E38"]
RESERVED["Double"] = ["real", repr(-DMAX).replace("e+", "E"), repr(DMAX).replace("e+", "E")]
BUILTIN = ["BOOLEAN", "INTEGER", "REAL", "IA5String", "NumericString"]
CCSDS = ["packet-version-number", "packet-type-is-cmd", "sec-hdr-flag-is-present", "application-process-identifier"]


# ------------------------------------------------------------------ text

def r_comment(c, eol=True):
    if c is None:
        return ""
    s = " --"
    if c.get("le"):
        s += " ENDIANNESS(LITTLE)"
    if c.get("unit"):
        s += " [" + c["unit"] + "]"
    if c.get("text"):
        s += " " + c["text"]
    return s


def r_type(t):
    k = t[0]
    if k == "int":
        return "INTEGER" + (f"({t[1]}..{t[2]})" if len(t) > 1 else "")
    if k == "real":
        return "REAL" + (f"({t[1]} .. {t[2]})" if len(t) > 1 else "")
    if k == "bool":
        return "BOOLEAN"
    if k == "null":
        return "NULL"
    if k == "str":
        return f"{t[1]} (SIZE ({t[2]}))"
    if k == "arr":
        return f"SEQUENCE (SIZE ({t[1]})) OF {r_type(t[2])}"
    return t[1]


def r_value(v):
    if v is True:
        return "(TRUE)"
    if v is False:
        return "(FALSE)"
    if isinstance(v, int):
        return f"({v})"
    if v[0] == "f":
        return f"({v[1]})"
    if WCC:
        return "(WITH COMPONENTS {\n" + "".join(
            "      " + k + " " + r_value(x) + ("," if i < len(v[1]) - 1 else "") + r_comment(wc_comment(k)) + "\n" for i, (k, x) in enumerate(v[1])) + "    })"
    return "(WITH COMPONENTS { " + ", ".join(k + " " + r_value(x) for k, x in v[1]) + " })"


WCC = 0     # comments inside the WITH COMPONENTS blocks of the bundle at hand: 0 none, else a number that selects them


def wc_comment(key):
    h = zlib.crc32(f"{key}/{WCC}".encode())
    if not WCC or h % 3:
        return None
    return {"unit": UNITS[h // 3 % len(UNITS)] if h // 32 % 2 else "", "text": WORDS[h // 64 % len(WORDS)] if h // 16 % 4 else "", "le": h // 8 % 8 == 0}


def r_member(m, last):
    s = "  " + m["key"] + " " + r_type(m["t"])
    comma = "" if last else ","
    if m.get("wc") is not None:
        s += r_comment(m.get("comment")) + "\n    " + r_value(["wc", m["wc"]]) + comma + "\n"
    else:
        s += comma + r_comment(m.get("comment")) + "\n"
    return s


def r_def(d):
    c = r_comment(d.get("comment"))
    if d["k"] == "simple":
        return f"{d['name']} ::= {r_type(d['t'])}{c}\n"
    if d["k"] == "enum":
        s = d["name"] + " ::= ENUMERATED {" + c + "\n"
        for i, it in enumerate(d["items"]):
            s += "  " + it["key"] + (f" ({it['pos']})" if it.get("pos") is not None else "")
            s += ("" if i == len(d["items"]) - 1 else ",") + r_comment(it.get("comment")) + "\n"
        return s + "}\n"
    s = d["name"] + " ::= " + ("SEQUENCE" if d["k"] == "seq" else "CHOICE") + " {" + c + "\n"
    for i, m in enumerate(d["m"]):
        s += r_member(m, i == len(d["m"]) - 1)
    return s + "}\n"


def r_module(m):
    s = f"Module-{m['name']} DEFINITIONS AUTOMATIC TAGS ::= BEGIN{r_comment(m.get('comment'))}\n"
    if m["imports"]:
        s += "IMPORTS\n" + "\n".join("  " + ", ".join(ns) + f" FROM Module-{o}" for ns, o in m["imports"]) + ";"
        s += r_comment(m.get("cimp")) + "\n"
    return s + "\n".join(r_def(d) for d in m["defs"]) + "END\n"


def texts(b):
    global WCC
    WCC = b.get("wcc", 0)
    return [r_module(m) for m in b["mods"]]


# ------------------------------------------------------------------ random generation

LOW = ["a", "b", "c", "x", "y", "z", "val", "a-b", "a-b-c", "ab", "abc", "x1", "x-1", "x-10", "len", "mode", "temp-raw", "v0-1-2-3",
       "count", "a-very-long-member-name-of-more-than-31-chars", "status-word-of-the-second-redundant-unit-number-2", "id", "t-0", "q"]
CAP = ["A", "B", "T", "Ab", "A-b", "A-b-c", "Foo", "Foo-bar", "Foo-bar-2", "Hdr", "Mode", "Status", "X1", "Tm", "Tc", "Value", "Very-long-type-name-of-more-than-31-characters",
       "Tlm-packet", "T-t", "U", "V", "W2", "Pkt-a", "Pkt-b", "Zz", "Int", "Bool", "Enum", "Choice", "Integer"]
MODS = ["m", "mod", "my-mod", "a", "b", "ab", "a-b", "c-c-c", "x9", "msg", "types", "m-2", "very-long-module-name", "hdr"]
WORDS = ["on", "off", "hello world", "Rate in use", "x", "A 1", "see doc 12.3", "ok 100%", "primary", "a, b (c)"]
UNITS = ["m", "m/s", "kg", "s^2", "%", "degC", "V"]


def pick_int_range(rng, std=False):
    if std:
        b = rng.choice([8, 16, 32, 64])
        if rng.random() < .5:
            return ["int", rng.choice([0, 0, 1]), rng.choice([2 ** b - 1, 2 ** (b - 1), 2 ** (b - 1) + rng.randrange(2 ** (b - 1))])]
        return signed(rng, b)
    r = rng.random()
    if r < .6:
        k = rng.choice(list(range(0, 65)) + [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 53, 54, 63, 64, 64])
        hi = 2 ** k + rng.choice([-1, -1, 0, 1]) if k else rng.choice([0, 1])
        if rng.random() < .25:
            hi = rng.randrange(2 ** k, 2 ** k * 2)
        hi = min(hi, 2 ** 64 - 1)
        lo = rng.choice([0, 0, 0, hi, min(1, hi), hi // 2, max(hi - 1, 0)])
        return ["int", lo, hi]
    return signed(rng, rng.choice([8, 16, 32, 64]))


def signed(rng, b):
    h = 2 ** (b - 1)
    q = 2 ** (b // 2 - 1) if b > 8 else 1
    ends = rng.choice(["lo", "hi", "both"])
    lo = rng.choice([-h, -h + 1, -q - 1, -q - 2]) if ends != "hi" else rng.choice([-1, -2, -q])
    hi = rng.choice([h - 1, h - 2, q, q + 1]) if ends != "lo" else rng.choice([0, 1, -1, q - 1])
    lo = min(lo, -1)
    if hi < lo:
        hi = lo
    return ["int", max(lo, -h), min(hi, h - 1)]


def pick_real(rng):
    lits = ["0.0", "1.0", "-1.0", "1.5", "-2.5E3", "1.0E-3", "3.4E38", "-3.4E38", "3.3E38", "3.5E38", "-3.5E38", "1.0E300", "-1.0E300",
            RESERVED["Double"][1], RESERVED["Double"][2], "100.25", "-0.5", "3.4000001E38", "-3.4000001E38"]
    if rng.random() < .2:
        return rng.choice([RESERVED["Float"], RESERVED["Double"]])[:]
    a, b = (rng.choice(lits) if rng.random() < .8 else float_lit(rng) for _ in range(2))
    if float(a) > float(b):
        a, b = b, a
    return ["real", a, b]


def float_lit(rng):
    x = rng.choice([rng.uniform(-1000, 1000), rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 37), float(rng.randrange(10 ** 9)), rng.randrange(2 ** 40) + .5, 1 / 3, 0.1, 123456789.125])
    t = repr(x).replace("e+", "E").replace("e", "E")
    if "E" in t:
        m, e = t.split("E")
        t = (m if "." in m else m + ".0") + "E" + e
    return t


def pick_comment(rng, p=.35, le=True, unit=True):
    if rng.random() > p:
        return None
    c = {"unit": rng.choice(UNITS) if unit and rng.random() < .4 else "", "text": rng.choice(WORDS) if rng.random() < .8 else "", "le": bool(le and rng.random() < .25)}
    return c


def uniq(rng, pool, used, make):
    free = [n for n in pool if n not in used]
    n = rng.choice(free) if free and rng.random() < .75 else None
    if n is None and used and rng.random() < .3:
        # a name that has another one as its beginning
        n = rng.choice(sorted(used)) + rng.choice(["x", "-x", "2", "-2", "-t"])
    while n is None or n in used:
        n = make(rng)
    used.add(n)
    return n


def long_tail(rng):
    return "".join(rng.choice("abcxyz019") for _ in range(rng.randrange(20, 60))) + "".join("-" + rng.choice("abc012") for _ in range(rng.randrange(0, 12)))


def low(rng):
    if rng.random() < .12:
        return rng.choice("abc") + long_tail(rng)
    return "".join(rng.choice("abcdefgh") for _ in range(rng.randrange(1, 4))) + "".join("-" + rng.choice("abc012") for _ in range(rng.randrange(0, 3)))


def cap(rng):
    if rng.random() < .12:
        return rng.choice("ABC") + long_tail(rng)
    return rng.choice("ABCDEFGH") + "".join(rng.choice("abc01") for _ in range(rng.randrange(0, 3))) + "".join("-" + rng.choice("abc012") for _ in range(rng.randrange(0, 3)))


class Gen:
    """One random valid bundle; profile knobs restrict it to what a property talks about."""

    def __init__(self, rng, mods=(1, 3), defs=(2, 8), members=(1, 6), choice=.08, arr="std", strs=.12, wc=.25, ccsds=.25,
                 own_only=False, wide_real=True, enums=.25, simple=.25, comments=.35, binary=False, deep=.0, noncyc=True, chain=False, split=0, stress=.02):
        self.r = rng
        self.__dict__.update(locals())
        self.b = None

    def bundle(self):
        r = self.r
        self.size = r.choice(["defs", "members", "mods", "enum", "deep", "deep"]) if r.random() < self.stress else ""
        n = r.randint(*self.mods) if self.size != "mods" else r.randint(9, 18)
        names = set()
        self.ms = []
        for _ in range(n):
            self.ms.append({"name": uniq(r, MODS, names, low), "comment": pick_comment(r, self.comments, False, False), "cimp": None, "imports": [], "defs": []})
        self.types = set(RESERVED)
        self.where = {}
        self.info = {}
        self.flat = {}
        nd = max(n, r.randint(*self.defs) if self.size not in ("defs", "mods") else r.randint(40, 90))
        if self.size == "deep":
            nd = r.randint(8, 14)
        if r.random() < .5:
            for nm in r.sample(sorted(RESERVED), r.randint(1, 3)):
                self.add(r.randrange(n), {"k": "simple", "name": nm, "t": RESERVED[nm][:], "comment": pick_comment(r, .2, False)})
        if r.random() < self.ccsds:
            self.add_ccsds()
        for i in range(nd):
            mi = r.randrange(n)
            if i < n:
                mi = n - 1 - i
            self.rand_def(mi)
        for i, m in enumerate(self.ms):
            if r.random() < .2 and i + 1 < n:
                j = r.randrange(i + 1, n)
                c = [d["name"] for d in self.ms[j]["defs"]]
                self.imp(i, r.choice(c))
        for m in self.ms:
            r.shuffle(m["defs"])
            if self.split and m["imports"] and r.random() < self.split:
                it = r.choice(m["imports"])
                j = r.randrange(1, len(it[0])) if len(it[0]) > 1 else 0
                # one module named by two items of the import list
                m["imports"].append([it[0][j:], it[1]])
                if j:
                    it[0] = it[0][:j]
            r.shuffle(m["imports"])
            if m["imports"] and r.random() < self.comments / 2:
                m["cimp"] = {"unit": "", "text": r.choice(WORDS), "le": False}
        r.shuffle(self.ms)
        return {"mods": self.ms}

    def add(self, mi, d):
        self.ms[mi]["defs"].append(d)
        self.types.add(d["name"])
        if d["k"] == "seq":
            self.flat[d["name"]] = sum(self.flat.get(m["t"][1], 1) if m["t"][0] == "ref" else 1 for m in d["m"])
        self.where[d["name"]] = mi
        self.info[d["name"]] = d

    def imp(self, mi, name):
        o = self.where[name]
        if o == mi:
            return
        on = self.ms[o]["name"]
        for it in self.ms[mi]["imports"]:
            if it[1] == on:
                if name not in it[0]:
                    it[0].append(name)
                return
        self.ms[mi]["imports"].append([[name], on])

    def visible(self, mi, kinds):
        return [n for n, w in self.where.items() if (w == mi or (w > mi and not self.own_only)) and self.info[n]["k"] in kinds]

    def name(self):
        return uniq(self.r, CAP, self.types, cap)

    def rand_def(self, mi):
        r = self.r
        x = r.random()
        if x < self.simple:
            t = r.choice([lambda: pick_int_range(r), lambda: pick_int_range(r), lambda: pick_real(r), lambda: ["bool"]])()
            self.add(mi, {"k": "simple", "name": self.name(), "t": t, "comment": pick_comment(r, self.comments / 2, False)})
        elif x < self.simple + self.enums:
            self.add(mi, self.enum())
        elif x < self.simple + self.enums + self.choice and self.visible(mi, ("seq", "enum")):
            keys = set()
            ms = []
            for _ in range(r.randint(1, 3) if r.random() < .85 else r.randint(4, 24)):
                n = r.choice(self.visible(mi, ("seq", "enum")))
                self.imp(mi, n)
                ms.append({"key": uniq(r, LOW, keys, low), "t": ["ref", n], "comment": pick_comment(r, self.comments), "wc": None})
            self.add(mi, {"k": "choice", "name": self.name(), "comment": pick_comment(r, self.comments, False), "m": ms})
        else:
            self.seq(mi)

    def enum(self):
        r = self.r
        keys = set()
        n = r.choice([1, 2, 3, 4, 5, 8, 9, 16, 17]) if r.random() < .8 else r.randint(1, 40)
        if self.size == "enum":
            n = r.choice([32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
        items = [{"key": uniq(r, LOW, keys, low), "pos": None, "comment": pick_comment(r, self.comments / 2, False)} for _ in range(n)]
        if r.random() < .5:
            ps = list(range(n))
            r.shuffle(ps)
            for it, p in zip(items, ps):
                it["pos"] = p
        return {"k": "enum", "name": self.name(), "comment": pick_comment(r, self.comments, False), "items": items}

    def leaf(self, mi):
        r = self.r
        x = r.random()
        if x < .3:
            return pick_int_range(r, std=self.binary and r.random() < .7)
        if x < .42:
            return ["bool"]
        if x < .52:
            return pick_real(r)
        if x < .52 + self.strs:
            return ["str", r.choice(["IA5String", "NumericString"]), r.choice([1, 1, 2, 4, 10, 32, 255, 1000])]
        c = self.visible(mi, ("simple", "enum"))
        if c:
            n = r.choice(c)
            self.imp(mi, n)
            return ["ref", n]
        return pick_int_range(r)

    def arr_elem(self, mi):
        r = self.r
        std = [n for n in self.visible(mi, ("simple",)) if is_std(self.info[n]["t"])]
        if self.arr == "cosmos":
            c = self.visible(mi, ("simple", "enum"))
        elif self.arr == "c":
            c = std + self.visible(mi, ("seq",))
        elif self.arr == "std":
            c = std
        else:
            c = []
        if self.arr == "cosmos" and r.random() < .2:
            return ["bool"]
        if not c:
            return None
        n = r.choice(c)
        self.imp(mi, n)
        return ["ref", n]

    def seq(self, mi, force=None):
        r = self.r
        keys = set()
        ms = []
        n = r.randint(*self.members) if r.random() < .9 else r.randint(8, 20)
        if self.size == "members":
            n = r.randint(30, 120) if r.random() < .7 or any(len(d.get("m", ())) > 200 for d in self.info.values()) else r.randint(257, 300)
        for i in range(n):
            m = {"key": uniq(r, LOW + (CCSDS[3:] if r.random() < .3 else []), keys, low), "comment": pick_comment(r, self.comments), "wc": None}
            x = r.random()
            t = None
            seqs = [s for s in self.visible(mi, ("seq",)) if sum(self.flat.get(y["t"][1], 1) if y["t"][0] == "ref" else 1 for y in ms) + self.flat[s] <= 150]
            if x < (.3 if self.size != "deep" else .6) and seqs and (self.size != "deep" or i < 3):
                nme = seqs[-1] if r.random() < (.5 if self.size != "deep" else .95) else r.choice(seqs)
                self.imp(mi, nme)
                t = ["ref", nme]
                if r.random() < self.wc and sum(1 for y in ms if y["wc"]) < self.max_wc():
                    m["wc"] = self.wcs(nme) or None
            elif x < .4:
                e = self.arr_elem(mi)
                if e:
                    t = ["arr", r.choice([1, 2, 3, 10, 64, 1000, 0 if r.random() < .2 else 5]), e]
            if t is None:
                t = self.leaf(mi)
            if m["key"] in CCSDS:
                t, m["wc"] = pick_int_range(r), None
            m["t"] = t
            ms.append(m)
        self.add(mi, {"k": "seq", "name": self.name(), "comment": pick_comment(r, self.comments, False), "m": ms})

    max_wc_n = 1

    def max_wc(self):
        return self.max_wc_n

    def wcs(self, name, depth=0):
        r = self.r
        d = self.info[name]
        out = []
        for m in d["m"]:
            if r.random() < .25 or (depth > 6 and m["t"][0] == "ref" and self.info.get(m["t"][1], {}).get("k") == "seq" and r.random() < .7):
                continue
            v = self.value(m["t"], depth)
            if v is not None:
                out.append([m["key"], v])
        r.shuffle(out) if r.random() < .5 else None
        return out

    def value(self, t, depth=0):
        r = self.r
        if t[0] == "ref" and t[1] in self.info:
            d = self.info[t[1]]
            if d["k"] == "simple":
                return self.value(d["t"])
            if d["k"] == "enum":
                return r.randrange(len(d["items"]))
            if d["k"] == "seq":
                w = self.wcs(t[1], depth + 1)
                return ["wc", w] if w else None
            return None
        if t[0] == "ref" and t[1] in RESERVED:
            t = RESERVED[t[1]]
        if t[0] == "int":
            return r.choice([t[1], t[2], r.randint(t[1], t[2]), min(max(0, t[1]), t[2])])
        if t[0] == "bool":
            return r.random() < .5
        if t[0] == "real":
            lo, hi = float(t[1]), float(t[2])
            v = r.choice(["0.0", "1.5", "-2.25", "1.0E10", "-1.0", "0.125", t[1], t[2], float_lit(r), float_lit(r)])
            return ["f", v if lo <= float(v) <= hi else t[1]]
        return None

    def add_ccsds(self):
        r = self.r
        mi = r.randrange(len(self.ms))
        pid = self.name()
        ms = [{"key": CCSDS[0], "t": ["int", 0, 7], "comment": None, "wc": None},
              {"key": CCSDS[1], "t": ["bool"], "comment": pick_comment(r, self.comments), "wc": None},
              {"key": CCSDS[2], "t": ["bool"], "comment": None, "wc": None},
              {"key": CCSDS[3], "t": ["int", 0, 2047], "comment": None, "wc": None}]
        self.add(mi, {"k": "seq", "name": pid, "comment": None, "m": ms})
        pri = self.name()
        self.add(mi, {"k": "seq", "name": pri, "comment": None, "m": [{"key": "packet-identification", "t": ["ref", pid], "comment": None, "wc": None}]})
        hdr = self.name()
        self.add(mi, {"k": "seq", "name": hdr, "comment": None, "m":
                 [{"key": "primary", "t": ["ref", pri], "comment": None, "wc": None}] +
                 [{"key": k, "t": self.leaf(mi), "comment": None, "wc": None} for k in r.sample(LOW, r.randint(0, 3))]})
        for _ in range(r.randint(1, 2)):
            w = self.wcs(hdr)
            x = {"key": "hdr-x", "t": ["ref", hdr], "comment": pick_comment(r, self.comments), "wc": w or None}
            rest = [{"key": k, "t": self.leaf(mi), "comment": pick_comment(r, self.comments), "wc": None} for k in r.sample(LOW, r.randint(0, 3))]
            rest.insert(r.randint(0, len(rest)), x)
            self.add(mi, {"k": "seq", "name": self.name(), "comment": None, "m": rest})


def is_std(t):
    if t[0] == "real":
        return True
    if t[0] != "int":
        return False
    return t[1] < 0 or max(t[2].bit_length(), 1) in (8, 16, 32, 64)
