"""Builds the model of a bundle by the constructors that the parser calls, without parsing text.

It only makes the search for failing inputs faster: whatever fails here is judged again on the parsed text before it is reported.
"""
from . import model

FAST = False        # set by the runner for most of the cases


class NotPossible(Exception):
    pass


class _Maker:
    def __init__(self):
        from asn1_parser.asn1.parser import Asn1Parser
        self.cls = {c.__name__: c for c in Asn1Parser.used_classes}
        self.proc = Asn1Parser._obj_processor

    def new(self, kind, parent=None, _set=True, **k):
        o = self.cls[kind].__new__(self.cls[kind])
        return o

    def init(self, o, **k):
        o.__init__(**k)
        return o

    def done(self, o):
        p = self.proc.get(type(o).__name__)
        if p:
            r = p(o)
            if r is not None:
                raise NotPossible("a processor replaces the object")
        return o

    def comment(self, c, parent):
        if c is None:
            return None
        o = self.new("Asn1Comment")
        return self.done(self.init(o, parent=parent, comment=c.get("text") or "", unit=c.get("unit") or "", is_little_endian=bool(c.get("le"))))

    def type(self, t, parent):
        o = self.new("Asn1Type")
        b = e = None
        k = t[0]
        if k in ("int", "real"):
            tn = "INTEGER" if k == "int" else "REAL"
            if len(t) > 1:
                b, e = (t[1], t[2]) if k == "int" else (float(t[1]), float(t[2]))
        elif k == "bool":
            tn = "BOOLEAN"
        elif k == "null":
            tn = "NULL"
        elif k == "str":
            tn = self.done(self.init(self.new("Asn1String"), length=t[2], type_name=t[1], parent=o))
        elif k == "arr":
            a = self.new("Array")
            tn = self.done(self.init(a, asn_type=self.type(t[2], a), length=t[1], parent=o))
        else:
            tn = t[1]
        return self.done(self.init(o, begin=b, end=e, type_name=tn, parent=parent))

    def wc(self, w, parent):
        if w is None:
            return None
        o = self.new("WithComponents")
        cs = []
        for i, (k, v) in enumerate(w):
            c = self.new("ComponentsItemLast" if i == len(w) - 1 else "ComponentsItemNotLast")
            if v is True or v is False:
                x = "TRUE" if v else "FALSE"
            elif isinstance(v, int):
                x = v
            elif v[0] == "f":
                x = float(v[1])
            else:
                x = self.wc(v[1], c)
            cs.append(self.done(self.init(c, key=k, value=x, comment=self.comment(model.wc_comment(k), c), parent=o)))
        return self.done(self.init(o, components=cs, comment=None, parent=parent))

    def members(self, ms, parent):
        out = []
        for i, m in enumerate(ms):
            o = self.new("KeyTypePairLast" if i == len(ms) - 1 else "KeyTypePairNotLast")
            out.append(self.done(self.init(o, key=m["key"], asn_type=self.type(m["t"], o), comment=self.comment(m.get("comment"), o),
                                           with_components=self.wc(m.get("wc"), o), parent=parent)))
        return out

    def definition(self, d, parent):
        k = {"seq": "Sequence", "choice": "Choice", "enum": "Enumerated", "simple": "SimpleDefinition"}[d["k"]]
        o = self.new(k)
        a = dict(type_name=d["name"], comment=self.comment(d.get("comment"), o), parent=parent)
        if k == "Sequence":
            a["seq"] = self.members(d["m"], o)
        elif k == "Choice":
            a["choice"] = self.members(d["m"], o)
        elif k == "SimpleDefinition":
            a["asn_type"] = self.type(d["t"], o)
        else:
            its = []
            for i, it in enumerate(d["items"]):
                q = self.new("EnumeratedItemLast" if i == len(d["items"]) - 1 else "EnumeratedItemNotLast")
                its.append(self.done(self.init(q, key=it["key"], pos=it.get("pos") or 0, comment=self.comment(it.get("comment"), q), parent=o)))
            a["enum"] = its
        return self.done(self.init(o, **a))

    def module(self, m):
        from asn1_parser.asn1 import parser
        o = self.new("Asn1Module")
        imps = []
        for ns, other in m["imports"]:
            imps.append(self.done(self.init(self.new("ImportItem"), definitions=list(ns), module_name=other, comment=None, parent=o)))
        if not m["defs"] or any(d["k"] != "simple" and not (d.get("m") or d.get("items")) for d in m["defs"]):
            raise NotPossible("the grammar has no empty lists")
        defs = [self.definition(d, o) for d in m["defs"]]
        self.done(self.init(o, module_name=m["name"], definitions=defs, comment=self.comment(m.get("comment"), o),
                            comment_import=self.comment(m.get("cimp"), o) if m["imports"] else None, import_items=imps))
        parser.model_processor_check_used_types_defined(o, None)
        return o


def modules(b):
    model.WCC = b.get("wcc", 0)
    mk = _Maker()
    return [mk.module(m) for m in b["mods"]]
