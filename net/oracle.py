"""Independent expectations computed from an abstract bundle (never from the code under test)."""
import struct
from .model import RESERVED, BUILTIN, FMAX, DMAX, CCSDS


class Reject(Exception):
    pass


def cname(n):
    return n.replace("-", "_")


def lower1(n):
    return n[:1].lower() + n[1:]


def tname(t):
    if t[0] == "arr":
        return tname(t[2])
    return {"int": "INTEGER", "real": "REAL", "bool": "BOOLEAN", "null": "NULL"}.get(t[0]) or t[1]


class B:
    def __init__(self, b):
        self.b = b
        self.mods = b["mods"]
        self.defs = {}
        for m in self.mods:
            for d in m["defs"]:
                self.defs.setdefault(d["name"], (d, m))
        self.byname = {m["name"]: m for m in self.mods}

    def d(self, name):
        return self.defs[name][0]

    # ---------------------------------------------------------- acceptance of the bundle (C02 C03 C04 C07 C08 C09)
    def problems(self):
        out = []
        names = [d["name"] for m in self.mods for d in m["defs"]]
        for n in set(names):
            if names.count(n) > 1:
                out.append(("dup-type", n))
        for m in self.mods:
            local = set(BUILTIN) | {n for ns, _ in m["imports"] for n in ns} | {d["name"] for d in m["defs"]}
            for ns, o in m["imports"]:
                if o not in self.byname:
                    out.append(("no-module", o))
                else:
                    have = {d["name"] for d in self.byname[o]["defs"]}
                    out += [("no-import", n) for n in ns if n not in have]
            for d in m["defs"]:
                if d["k"] in ("seq", "choice"):
                    for x in d["m"]:
                        if tname(x["t"]) not in local:
                            out.append(("no-type", tname(x["t"])))
                        out += type_problems(x["t"])
                elif d["k"] == "simple":
                    out += type_problems(d["t"])
                    if d["name"] in RESERVED:
                        w = RESERVED[d["name"]]
                        t = d["t"]
                        if t[0] not in ("int", "real") or len(t) < 3 or float(t[1]) != float(w[1]) or float(t[2]) != float(w[2]) \
                                or (t[0] == "int" and w[0] == "int" and (t[1], t[2]) != (w[1], w[2])):
                            out.append(("reserved", d["name"]))
                elif enum_numbers(d) is None:
                    out.append(("enum", d["name"]))
        for m in self.mods:
            for d in m["defs"]:
                if d["k"] == "seq":
                    for x in d["m"]:
                        if x.get("wc") is not None:
                            out += self.wc_problems(x["wc"], tname(x["t"]))
        return out

    def wc_problems(self, wc, tn):
        seqs = [d for m in self.mods for d in m["defs"] if d["k"] == "seq" and d["name"] == tn]
        if len(seqs) != 1:
            return [] if tn in BUILTIN else [("wc-type", tn)]
        out = []
        for k, v in wc:
            ms = [x for x in seqs[0]["m"] if x["key"] == k]
            if not ms:
                out.append(("wc-key", k))
            elif isinstance(v, list) and v[0] == "wc":
                out += self.wc_problems(v[1], tname(ms[0]["t"]))
        return out

    # ---------------------------------------------------------- widths and types
    def base(self, t):
        """resolve references to simple definitions and reserved names"""
        if t[0] == "ref":
            d = self.defs.get(t[1])
            if d and d[0]["k"] == "simple":
                return d[0]["t"]
        return t

    def width(self, t):
        t = self.base(t)
        if t[0] == "int":
            lo, hi = t[1], t[2]
            if lo >= 0:
                w = max(1, hi.bit_length())
                if w > 64:
                    raise Reject("unsigned over 64 bits")
                return w
            for w in (8, 16, 32, 64):
                if lo >= -2 ** (w - 1) and hi <= 2 ** (w - 1) - 1:
                    return w
            raise Reject("signed over 64 bits")
        if t[0] == "bool":
            return 1
        if t[0] == "real":
            return 32 if is_single(t) else 64
        if t[0] == "str":
            return 8 * t[2]
        if t[0] == "arr":
            return t[1] * self.width(t[2])
        d = self.d(t[1])
        if d["k"] == "enum":
            return max(1, (len(d["items"]) - 1).bit_length())
        if d["k"] == "seq":
            return sum(self.width(x["t"]) for x in d["m"])
        raise Reject("no size")

    def cfield(self, m):
        """(C type, field name, bitfield width or None, array length or None)"""
        t, n = m["t"], None
        if t[0] == "arr":
            n, t = t[1], t[2]
        elif t[0] == "str":
            return ("char", cname(m["key"]), None, t[2])
        if t[0] == "ref" and t[1] in RESERVED and RESERVED[t[1]][0] == "int":
            return (cname(lower1(t[1])), cname(m["key"]), None, n)
        b = self.base(t)
        if b[0] == "int":
            w = self.width(b)
            s = next(x for x in (8, 16, 32, 64) if x >= w)
            return (("uint" if b[1] >= 0 else "int") + f"{s}_t", cname(m["key"]), None if w == s else w, n)
        if b[0] == "bool":
            return ("uint8_t", cname(m["key"]), 1, n)
        if b[0] == "real":
            return ("float" if is_single(b) else "double", cname(m["key"]), None, n)
        d = self.d(b[1])
        return (cname(d["name"]), cname(m["key"]), self.width(b) if d["k"] == "enum" else None, n)

    # ---------------------------------------------------------- cFS constants
    def defines(self, mod, order):
        out = []
        for dn in order:
            d = self.d(dn)
            if d["k"] == "seq":
                for m in d["m"]:
                    if m.get("wc"):
                        out += self._defs(cname(d["name"]), m["wc"])
        return out

    def _defs(self, name, wc):
        out = []
        for k, v in wc:
            if isinstance(v, list) and v[0] == "wc":
                if k == "primary":
                    out.append((name.upper() + "_MID", "(0x%04X)" % self.mid(v[1])))
                else:
                    out += self._defs(name, v[1])
            else:
                out.append(((name + "_" + cname(k)).upper(), "(" + lit(v, "true", "false") + ")"))
        return out

    def mid(self, wc):
        r = {}
        for k, v in wc:
            if k != "packet-identification":
                raise Reject(k)
            for k2, v2 in v[1]:
                if k2 not in CCSDS:
                    raise Reject(k2)
                r[k2] = int(v2)
        return r.get(CCSDS[0], 0) << 13 | r.get(CCSDS[1], 0) << 12 | r.get(CCSDS[2], 0) << 11 | r.get(CCSDS[3], 0)

    # ---------------------------------------------------------- binary images
    def image(self, mod, d, endian):
        """bytes of the image of a sequence of this module, or None if it has no fixed values"""
        own = {x["name"]: x for x in mod["defs"] if x["k"] == "seq"}
        out, found = b"", False
        e = "<" if endian == "little-endian" else ">"
        for m in d["m"]:
            if m.get("wc"):
                found = True
                out += self._img(own, tname(m["t"]), m["wc"], e)
        return out if found else None

    def _img(self, own, tn, wc, e):
        if tn not in own:
            raise Reject("type of another module")
        out = b""
        for k, v in wc:
            ms = [x for x in own[tn]["m"] if x["key"] == k]
            if ms[0].get("wc"):
                raise Reject("member with own fixed values")
            t = ms[0]["t"]
            if isinstance(v, list) and v[0] == "wc":
                out += self._img(own, tname(t), v[1], e)
                continue
            if t[0] == "ref":
                if t[1] not in RESERVED:
                    raise Reject("no encoding")
                t = RESERVED[t[1]]
            if t[0] == "int":
                w = self.width(t)
                if w not in (8, 16, 32, 64):
                    raise Reject("no whole bytes")
                if not isinstance(v, int):
                    raise Reject("no integer")
                try:
                    out += int(v).to_bytes(w // 8, "little" if e == "<" else "big", signed=t[1] < 0)
                except OverflowError:
                    raise Reject("does not fit")
            elif t[0] == "real":
                x = float(v[1]) if isinstance(v, list) else float(v)
                try:
                    out += struct.pack(e + ("f" if is_single(t) else "d"), x)
                except (OverflowError, struct.error):
                    raise Reject("does not fit")
            else:
                raise Reject("no encoding")
        return out

    # ---------------------------------------------------------- COSMOS
    def items(self, dname, given=()):
        """flattened leaf fields of a message: dicts"""
        d = self.d(dname)
        if d["k"] != "seq":
            raise Reject("not a structure")
        out = []
        for m in d["m"]:
            t, n = m["t"], None
            if t[0] == "arr":
                n, t = t[1], t[2]
            v = [x for k, x in given if k == m["key"]]
            b = self.base(t)
            if b[0] == "ref" and self.d(b[1])["k"] in ("seq", "choice"):
                if n is not None:
                    raise Reject("array of structures")
                inner = list(m.get("wc") or [])
                if v and isinstance(v[0], list) and v[0][0] == "wc":
                    inner += v[0][1]
                if len({k for k, _ in inner}) < len(inner):
                    raise Reject("fixed twice")   # see known finding K4
                out += self.items(b[1], inner)
                continue
            c = m.get("comment") or {}
            it = dict(name=m["key"], bits=self.width(t), comment=c.get("text", ""), unit=c.get("unit", ""), le=bool(c.get("le")), states=[], limits=None,
                      value="", array=n is not None)
            if b[0] == "int":
                it["kind"] = "UINT" if b[1] >= 0 else "INT"
            elif b[0] == "bool":
                it["kind"] = "UINT"
                if t[0] == "bool":
                    it["states"] = [("False", 0), ("True", 1)]
            elif b[0] == "real":
                it["kind"] = "FLOAT"
                lim = FMAX if is_single(b) else DMAX
                if float(b[1]) > -lim or float(b[2]) < lim:
                    it["limits"] = (float(b[1]), float(b[2]))
            elif b[0] == "str":
                it["kind"] = "STRING"
            else:
                it["kind"] = "UINT"
                it["states"] = [(k, i) for i, k in enumerate(enum_numbers(self.d(b[1])))]
            if n is not None:
                it["value"] = str(n * it["bits"])
            elif v:
                x = v[0]
                if isinstance(x, bool):
                    it["value"] = str(int(x))
                elif m["key"] == "application-process-identifier":
                    it["value"] = "0x%02X" % x
                else:
                    it["value"] = lit(x, "", "")
            out.append(it)
        return out

    # ---------------------------------------------------------- C initialisers
    def inits(self, d):
        """[(member, nested dict-as-list)] for every member with fixed values"""
        return [[cname(m["key"]), self._init(m["wc"])] for m in d["m"] if m.get("wc")]

    def _init(self, wc):
        return [[cname(k), self._init(v[1]) if isinstance(v, list) and v[0] == "wc" else lit(v, "1", "0")] for k, v in wc]

    # ---------------------------------------------------------- order
    def cyclic_modules(self):
        g = {m["name"]: {o for _, o in m["imports"]} for m in self.mods}
        return cyclic(g)

    def cyclic_types(self, m):
        own = {d["name"] for d in m["defs"]}
        g = {d["name"]: ({tname(x["t"]) for x in d["m"]} & own if d["k"] in ("seq", "choice") else set()) for d in m["defs"]}
        return cyclic(g)


def cyclic(g):
    left = dict(g)
    while left:
        ok = [n for n in left if not (left[n] & set(left))]
        if not ok:
            return True
        for n in ok:
            del left[n]
    return False


def is_single(t):
    return float(t[1]) >= -FMAX and float(t[2]) <= FMAX


def type_problems(t):
    if t[0] == "arr":
        return type_problems(t[2])
    if t[0] == "null":
        return [("null", "")]
    if t[0] == "int" and len(t) > 1 and t[2] < t[1]:
        return [("range", t)]
    if t[0] == "real" and len(t) > 1:
        lo, hi = float(t[1]), float(t[2])
        if hi < lo or lo < -DMAX or hi > DMAX:
            return [("range", t)]
    return []


def enum_numbers(d):
    """keys in the order of their numbers, or None if the numbering is to be rejected (an item without a number counts as 0)"""
    ps = [it.get("pos") or 0 for it in d["items"]]
    if all(p == 0 for p in ps):
        if any(it.get("pos") is not None for it in d["items"]) and len(ps) > 1:
            return "ambiguous"
        return [it["key"] for it in d["items"]]
    if sorted(ps) != list(range(len(ps))):
        return None
    return [it["key"] for _, it in sorted(zip(ps, d["items"]), key=lambda x: x[0])]


def lit(v, t, f):
    if v is True:
        return t
    if v is False:
        return f
    if isinstance(v, int):
        return str(v)
    return str(float(v[1]))
