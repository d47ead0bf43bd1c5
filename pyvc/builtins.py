"""Contracts of the Python builtins and external libraries used by the code."""
import ast
import collections
import enum
import inspect
import math
import string
import types
import z3
from .values import *
from .ctx import subst, forall, exists, contains
from .interp import IFold, Frame, NUM, LoggerVal

ASSUMED = set()      # external functions whose behaviour is assumed


# ------------------------------------------------------------ spec builtins
def spec_builtin(f):
    f._pyvc_builtin = f.__name__
    return f


def is_spec_builtin(f):
    return getattr(f, "_pyvc_builtin", None) is not None


def call_spec_builtin(ip, f, args, kwargs, node):
    n = f._pyvc_builtin
    if n == "emit_file":
        path, mode, content = args
        put_effect(ip, ("file", path, mode, SStr(ip.pieces(content)) if not isinstance(content, str) else SStr((content,))))
        return None
    h = getattr(f, "_pyvc_impl", None)
    if h is not None:
        return h(ip, args, kwargs, node)
    ip.unsupported(f"spec builtin {n}", node)


def put_effect(ip, e):
    ip.ctx.setloc(("items", ip.effects, None), ip.effects.items + (E(e),))


def close_file(ip, h):
    if h.fields["mode"] == "r":
        return
    put_effect(ip, ("file", h.fields["path"], h.fields["mode"], h.fields["content"]))


# ------------------------------------------------------------------ strings
def to_str(ip, x):
    x = ip.narrow(x)
    if isinstance(x, SEnum):
        x = ip.concretize_enum(x)
    if isinstance(x, enum.Enum):
        return str(x)
    if isinstance(x, (str, SStr)):
        return x
    if x is None or isinstance(x, (bool, int, float)):
        return str(x)
    if isinstance(x, SBool):
        return "True" if ip.ctx.decide(x.t) else "False"
    if isinstance(x, SInt):
        k = determined(ip, x.t)
        if k is not None:
            return str(k)
        if z3.is_app_of(x.t, z3.Z3_OP_ITE):
            c, a, b = x.t.children()
            return to_str(ip, SInt(a if ip.ctx.decide(c) else b))
        return SStr((ip.ctx.func("str_of_int", IntS, IntS)(x.t),))
    if isinstance(x, SReal):
        return SStr((ip.ctx.func("str_of_real", RealS, IntS)(x.t),))
    if isinstance(x, type):
        return repr(x)
    if isinstance(x, Havoc):
        return SStr((App("havoc", (SInt(ip.ctx.fresh("havoc", IntS)),)),))
    return SStr((App("str", (frozen(x),)),))


def determined(ip, t):
    """the only value an integer term can have here, or None"""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_const(t) or t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return None
    if ip.ctx.feasible() != z3.sat:
        return None
    try:
        v = ip.ctx.solver.fast.model().eval(t, model_completion=True)
    except z3.Z3Exception:
        return None
    if not z3.is_int_value(v) or ip.ctx.feasible(t != v) != z3.unsat:
        return None
    return v.as_long()


def frozen(x):
    """immutable copy of a mutable value, as it is now"""
    if isinstance(x, LList):
        return LList(tuple(frozen(i) for i in x.items), 0, x.kind)
    if isinstance(x, LDict):
        return LDict(tuple(frozen(i) for i in x.items), 0)
    if isinstance(x, E):
        return E(frozen(x.v))
    if isinstance(x, tuple):
        return tuple(frozen(i) for i in x)
    return x


def fmt(ip, x, spec):
    x = ip.narrow(x)
    if isinstance(x, SEnum):
        x = ip.concretize_enum(x)
    if not isinstance(spec, str):
        ip.unsupported("computed format specification")
    if not spec:
        return to_str(ip, x)
    if not isinstance(x, (Sym, Obj, LList, LDict)):
        try:
            return format(x, spec)
        except Exception as e:
            raise PyRaise(type(e))
    kind = spec[-1]
    if isinstance(x, SBool):
        if kind in "bcdoxXn":
            x = SInt(z3.If(x.t, 1, 0))
        else:
            x = bool(ip.ctx.decide(x.t))
            return fmt(ip, x, spec)
    if isinstance(x, SStr):
        if kind in "bcdoxXneEfFgG%":
            raise PyRaise(ValueError)
        if len(x.pieces) == 1 and isinstance(x.pieces[0], z3.ExprRef):
            return simp(SStr((term_func(ip, "fmt:" + spec, x.pieces[0], lambda t: format(t, spec)),)))
        return SStr((App("fmt", (spec, x)),))
    if isinstance(x, SInt):
        if kind == "s":
            raise PyRaise(ValueError)
        if kind == "d" and spec == "d":
            return to_str(ip, x)
        return SStr((App("fmt", (spec, x)),))
    if isinstance(x, SReal):
        if kind in "sbcdoxX":
            raise PyRaise(ValueError)
        return SStr((App("fmt", (spec, x)),))
    if isinstance(x, (SRef, Obj)):
        raise PyRaise(TypeError)
    ip.unsupported(f"format of {x!r}")


def term_func(ip, name, t, pyfn, preimage=None):
    ip.world.strfuncs.setdefault(name, (pyfn, preimage))
    if z3.is_int_value(t):
        s = ip.world.litname(t.as_long())
        if s is not None:
            return pyfn(s)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = (term_func(ip, name, x, pyfn, preimage) for x in (t.arg(1), t.arg(2)))
        a, b = (ip.ctx.lit(x) if isinstance(x, str) else x for x in (a, b))
        return z3.If(t.arg(0), a, b)
    # chains of character-wise functions: those that commute in one order, repeated ones once
    chain = [name]
    while z3.is_app(t) and t.num_args() == 1 and charwise(t.decl().name()) and t.decl().name() in ip.world.strfuncs:
        chain.insert(0, t.decl().name())
        t = t.arg(0)
    chain = canonical(chain, ip.world.strfuncs) if charwise(name) else chain
    ip.shapes_used.add("str:" + "|".join(chain))
    for n in chain:
        t = ip.ctx.func(n, IntS, IntS)(t)
    return t


def charwise(name):
    return name in ("upper", "lower") or name.startswith("replace:") and name[9:10] == ":"


ALL_CHARS = [chr(i) for i in range(128)]


def canonical(chain, fns):
    chain = list(chain)
    changed = True
    while changed:
        changed = False
        for i in range(len(chain) - 1):
            f, g = (fns[chain[i + k]][0] for k in (0, 1))
            if chain[i] == chain[i + 1] and all(f(f(c)) == f(c) for c in ALL_CHARS):
                del chain[i]
                changed = True
                break
            if chain[i] > chain[i + 1] and all(f(g(c)) == g(f(c)) for c in ALL_CHARS):
                chain[i], chain[i + 1] = chain[i + 1], chain[i]
                changed = True
                break
    return chain


def map_pieces(ip, v, name, pyfn, preimage=None):
    """apply a character-wise function to a string"""
    if isinstance(v, str):
        return pyfn(v)
    out = []
    for p in v.pieces:
        if isinstance(p, str):
            out.append(pyfn(p))
        elif isinstance(p, z3.ExprRef):
            if z3.is_app(p) and p.decl().name() == "str_of_int" and name in ("lower", "upper"):
                out.append(p)
            else:
                out.append(term_func(ip, name, p, pyfn, preimage))
        elif isinstance(p, App):
            out.append(App("strmap", (name, p)))
        elif isinstance(p, Cond):
            out.append(p.copy(p.base, [(c, ip.pieces(map_pieces(ip, SStr(d), name, pyfn, preimage)) if d else d) for c, d in p.cases]))
        elif isinstance(p, Fold):
            n = IFold(p.base, p.idx, [(c, ip.pieces(map_pieces(ip, SStr(d), name, pyfn, preimage)) if d else d) for c, d in p.cases])
            n.total = getattr(p, "total", False)
            out.append(n)
        else:
            ip.unsupported("string accumulator")
    return simp(SStr(tuple(out)))


def simp(s):
    if isinstance(s, SStr) and all(isinstance(p, str) for p in s.pieces):
        return "".join(s.pieces)
    return s


def replace_preimage(a, b):
    if len(a) == 1 and len(b) == 1:
        def pre(s):
            out = [""]
            for ch in s:
                if ch == a:
                    return []
                if ch == b:
                    out = [o + x for o in out for x in (a, b)]
                else:
                    out = [o + ch for o in out]
                if len(out) > 64:
                    return None
            return out
        return pre
    return None


def case_preimage(f):
    def pre(s):
        if f(s) != s:
            return []
        out = [""]
        for ch in s:
            alts = {ch, ch.upper(), ch.lower()}
            alts = sorted(x for x in alts if f(x) == ch)
            out = [o + x for o in out for x in alts]
            if len(out) > 600:
                return None
        return out
    return pre


def str_pred(ip, name, v, pyfn, app):
    """predicate of a string: known on all literals"""
    if isinstance(v, str):
        return pyfn(v)
    if len(v.pieces) == 1 and isinstance(v.pieces[0], z3.ExprRef):
        f = ip.ctx.func(name, IntS, BoolS)
        ip.world.strlit("")
        for s, k in list(ip.world.lits.items()):
            ip.ctx.assume(f(z3.IntVal(k)) == pyfn(s))
        return f(v.pieces[0])
    return ip.app_bool(name, app)


def str_method(ip, m, v, args, kwargs, node):
    v = v.value if isinstance(v, enum.Enum) else v
    conc = isinstance(v, str) and not any(isinstance(a, (Sym, LList, GenVal)) for a in list(args) + list(kwargs.values()))
    if conc and m not in ("join", "format") and hasattr(str, m):
        try:
            return ip.wrap(getattr(v, m)(*args, **kwargs), "str." + m)
        except Exception as e:
            raise PyRaise(type(e))
    if m == "split" and len(args) == 1 and isinstance(args[0], str) and not kwargs:
        return ip.new_list(app_list(ip, "split:" + args[0], (v,), ("str",)))
    if m == "lower":
        return map_pieces(ip, v, "lower", str.lower, case_preimage(str.lower))
    if m == "upper":
        return map_pieces(ip, v, "upper", str.upper, case_preimage(str.upper))
    if m == "replace" and len(args) == 2 and isinstance(args[0], str) and isinstance(args[1], str):
        a, b = args
        if len(a) == 1:
            return map_pieces(ip, v, f"replace:{a}:{b}", lambda s: s.replace(a, b), replace_preimage(a, b))
        if "\n" in a and isinstance(v, SStr):
            ok = True
            ps = v.pieces
            for i, p in enumerate(ps):
                if isinstance(p, str):
                    continue
                nxt = ps[i + 1] if i + 1 < len(ps) else ""
                if not isinstance(nxt, str):
                    continue
                for k in range(1, len(a)):
                    if "\n" not in a[:k] and nxt.startswith(a[k:]):
                        ok = False
            if ok:
                ASSUMED.add("texts of the model contain no line break (grammar)")
                return simp(SStr(tuple(p.replace(a, b) if isinstance(p, str) else p for p in ps)))
        return SStr((App("replace", (v, a, b)),))
    if m in ("startswith", "endswith") and isinstance(args[0], str):
        if isinstance(v, SStr) and v.pieces:
            p = v.pieces[0] if m == "startswith" else v.pieces[-1]
            if isinstance(p, str) and len(p) >= len(args[0]):
                return getattr(p, m)(args[0])
        r = str_pred(ip, f"{m}:{args[0]}", v, lambda s: getattr(s, m)(args[0]), App(m, (v, args[0])))
        return r if isinstance(r, bool) else SBool(r)
    if m == "find" and isinstance(args[0], str):
        has = str_pred(ip, f"has:{args[0]}", v, lambda s: args[0] in s, App("has", (v, args[0])))
        if isinstance(has, bool):
            return 0 if has else -1
        t = ip.app_int("find", App("find", (v, args[0])))
        return SInt(z3.If(has, z3.If(t >= 0, t, z3.IntVal(0)), z3.IntVal(-1)))
    if m == "join":
        return join(ip, v, args[0], node)
    if m == "format":
        return format_str(ip, v, args, kwargs, node)
    if m in ("strip", "rstrip", "lstrip", "title", "capitalize"):
        if isinstance(v, SStr):
            return SStr((App("str." + m, (v,) + tuple(args)),))
    if m == "isdigit":
        r = str_pred(ip, "isdigit", v, str.isdigit, App("isdigit", (v,)))
        return r if isinstance(r, bool) else SBool(r)
    ip.unsupported(f"str.{m}", node)


def format_str(ip, v, args, kwargs, node):
    if not isinstance(v, str):
        ip.unsupported("format of a computed template", node)
    out = ()
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(v):
        out += (lit,)
        if name is None:
            continue
        if conv not in (None, "s"):
            ip.unsupported("format conversion", node)
        if name == "":
            x = args[auto]
            auto += 1
        elif name.isdigit():
            x = args[int(name)]
        elif name in kwargs:
            x = kwargs[name]
        elif name.isidentifier():
            raise PyRaise(KeyError)
        else:
            ip.unsupported("format field", node)
        out += ip.pieces(fmt(ip, x, spec or ""))
    return simp(SStr(out))


def join(ip, sep, lst, node):
    if isinstance(lst, GenVal):
        lst = ip.gen_list(lst)
    if isinstance(lst, tuple):
        lst = LList(tuple(E(x) for x in lst))
    if isinstance(lst, SetDiff):
        return SStr((App("havoc", (SInt(ip.ctx.fresh("havoc", IntS)),)),))
    if not isinstance(lst, LList):
        ip.unsupported("join", node)
    items = lst.items
    if lst.kind in ("set", "bag") and len(items) > 1 or lst.kind in ("set", "bag") and any(isinstance(i, Fold) for i in items):
        return SStr((App("join", (sep, frozen(lst))),))
    if all(isinstance(i, E) for i in items):
        out = ()
        for n, i in enumerate(items):
            if n:
                out += ip.pieces(sep)
            x = ip.narrow(i.v)
            if not isinstance(x, (str, SStr, App)):
                raise PyRaise(TypeError)
            out += ip.pieces(x)
        return simp(SStr(out))
    if sep == "":
        return SStr(str_items(ip, items))
    return SStr((App("join", (sep, frozen(lst))),))


def str_items(ip, items):
    out = ()
    for i in items:
        if isinstance(i, E):
            out += ip.pieces(i.v)
        elif isinstance(i, Cond):
            out += (i.copy(i.base, [(c, str_items(ip, d)) for c, d in i.cases]),)
        elif isinstance(i, Fold):
            n = IFold(i.base, i.idx, [(c, str_items(ip, d)) for c, d in i.cases])
            n.total = getattr(i, "total", False)
            out += (n,)
        else:
            ip.unsupported("join of accumulator")
    return out


# ------------------------------------------------------------- collections
def list_method(ip, m, v, args, kwargs, node):
    if m == "append":
        ip.set_items(v, v.items + (E(args[0]),))
        return None
    if m == "add" and v.kind == "set":
        ip.set_items(v, v.items + (E(args[0]),))
        return None
    if m in ("extend", "update"):
        for a in args:
            if m == "update" and isinstance(a, LList):
                ip.set_items(v, v.items + a.items)
            else:
                ip.set_items(v, v.items + ip.items_of(a, node))
        return None
    if m == "copy":
        return ip.new_list(v.items, v.kind)
    if m == "remove" and v.kind == "list" and len(args) == 1:
        from . import invariant
        return invariant.remove(ip, v, args[0], node)
    if m == "clear":
        ip.set_items(v, ())
        return None
    if m == "insert" and args[0] == 0 and isinstance(args[0], int):
        ip.set_items(v, (E(args[1]),) + v.items)
        return None
    if m == "pop" and not args and v.items and isinstance(v.items[-1], E):
        x = v.items[-1].v
        ip.set_items(v, v.items[:-1])
        return x
    if m == "union" and v.kind == "set":
        return ip.new_list(v.items + tuple(i for a in args for i in a.items), "set")
    if m == "difference" and v.kind == "set" and len(args) == 1:
        a = args[0]
        return SetDiff(v, a if isinstance(a, LList) else ip.new_list(ip.items_of(a, node)))
    if m == "count" and v.kind == "list":
        return ip.count_of(v, args[0])
    if m in ("issubset",):
        d = SetDiff(v, args[0])
        t = ip.setdiff_nonempty(d)
        return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
    ip.unsupported(f"{v.kind}.{m}", node)


def dict_method(ip, m, v, args, kwargs, node):
    if m == "get":
        if isinstance(v, SMap):
            ok, x = smap_get(ip, v, args[0])
        else:
            ok, x = ip.dict_get(v, args[0])
        return x if ok else (args[1] if len(args) > 1 else None)
    if m == "keys":
        if all(isinstance(i, E) for i in v.items):
            return ip.new_list(tuple(E(i.v[0]) for i in v.items))
        try:
            ip.need_unique(v, node)
            kind = "list"
        except Unsupported:
            kind = "bag"
        return ip.new_list(ip.map_items(v.items, lambda kv: kv[0]), kind)
    if m == "values":
        ip.need_unique(v, node)
        return ip.new_list(ip.map_items(v.items, lambda kv: kv[1]))
    if m == "items":
        ip.need_unique(v, node)
        return ip.new_list(ip.map_items(v.items, lambda kv: kv))
    if m == "copy":
        return LDict(v.items, ip.ctx.stamp())
    if m == "setdefault" and not all(isinstance(i, E) and isinstance(i.v, tuple) for i in v.items) \
            and len(args) == 2 and isinstance(args[1], LList) and args[1].kind == "set" and not args[1].items:
        ip.set_items(v, v.items + (E(App("set-entry", (args[0],))),))
        return DictSlot(v, args[0])
    if m == "setdefault" and not all(isinstance(i, E) and isinstance(i.v, tuple) for i in v.items) \
            and len(args) == 2 and isinstance(args[1], LList) and not args[1].items:
        return DictSlot(v, args[0])
    if m == "setdefault":
        ok, x = ip.dict_get(v, args[0])
        if ok:
            return x
        x = args[1] if len(args) > 1 else None
        ip.set_items(v, v.items + (E((args[0], x)),))
        return x
    ip.unsupported(f"dict.{m}", node)


def slot_method(ip, m, v, args, kwargs, node):
    if m == "add":
        ip.set_items(v.d, v.d.items + (E(App("add-entry", (v.key, args[0]))),))
        return
    if m == "extend":
        items = frozen(ip.new_list(ip.items_of(args[0], node)))
    elif m == "append":
        items = frozen(ip.new_list((E(args[0]),)))
    else:
        ip.unsupported(f"setdefault(...).{m}", node)
    old = v.d.items
    if old and isinstance(old[-1], E) and isinstance(old[-1].v, App) and old[-1].v.name == "list-entry" and ip.same_syntax(old[-1].v.args[0], v.key):
        old = old[:-1]      # if k not in d: d[k] = []   d[k].extend(...)   is   d.setdefault(k, []).extend(...)
    ip.set_items(v.d, old + (E(App("extend-entry", (v.key, items))),))


def key_term(ip, k):
    k = ip.narrow(k)
    if isinstance(k, enum.Enum):
        return z3.IntVal(list(type(k)).index(k) + 1)
    if isinstance(k, str):
        return ip.ctx.lit(k)
    if isinstance(k, SStr) and len(k.pieces) == 1 and isinstance(k.pieces[0], z3.ExprRef):
        return k.pieces[0]
    if isinstance(k, SInt):
        return k.t
    if isinstance(k, (SRef, SEnum)):
        return k.t
    if isinstance(k, int):
        return z3.IntVal(k)
    ip.unsupported(f"key {k!r}")


def smap_has(ip, v, k):
    t = key_term(ip, k)
    return ip.ctx.func("has!" + v.name, *([IntS] * (len(v.args) + 1)), BoolS)(*v.args, t)


def smap_get(ip, v, k):
    if not ip.ctx.decide(smap_has(ip, v, k)):
        return False, None
    return True, ip.ctx.mk(v.vt, "get!" + v.name, tuple(v.args) + (key_term(ip, k),))


# ------------------------------------------------------------ the builtins
def isinstance_(ip, v, cs):
    cs = cs if isinstance(cs, tuple) else (cs,)
    flat = []
    for c in cs:
        flat.extend(c if isinstance(c, tuple) else (c,))
    cs = tuple(flat)
    if not all(isinstance(c, type) for c in cs):
        ip.unsupported("isinstance with a computed class")

    def kind_ok(k):
        py = {"int": int, "real": float, "bool": bool, "str": str, "none": type(None)}[k]
        return any(issubclass(py, c) for c in cs)
    if isinstance(v, Poison):
        ip.unsupported(f"read of {v.why}")
    if isinstance(v, SVal):
        alts = []
        t = v.t
        for ty in v.types:
            if ty[0] == "ref":
                good = [c for c in ty[1] if issubclass(c, cs)]
                if len(good) == len(ty[1]):
                    alts.append(Val.is_ref(t))
                elif good:
                    alts.append(z3.And(Val.is_ref(t), z3.Or([ip.ctx.class_tag(Val.o(t)) == ip.world.tag(c) for c in good])))
            elif kind_ok(ty[0]):
                alts.append(getattr(Val, "is_" + ty[0])(t))
        if not alts:
            return False
        return z3.Or(alts)
    if isinstance(v, SRef):
        good = [c for c in v.classes if issubclass(c, cs)]
        if not good:
            return False
        if len(good) == len(v.classes):
            return v.t != 0
        return z3.And(v.t != 0, z3.Or([ip.ctx.class_tag(v.t) == ip.world.tag(c) for c in good]))
    if isinstance(v, SEnum):
        return (v.t != 0) if issubclass(v.cls, cs) else False
    for cl, k in ((SInt, "int"), (SReal, "real"), (SBool, "bool"), (SStr, "str")):
        if isinstance(v, cl):
            return kind_ok(k)
    if isinstance(v, LList):
        return any(issubclass({"list": list, "set": set, "bag": list}.get(v.kind, list), c) for c in cs)
    if isinstance(v, (LDict, SMap)):
        return any(issubclass(dict, c) for c in cs)
    if isinstance(v, Obj):
        return isinstance(v.cls, type) and issubclass(v.cls, cs)
    if isinstance(v, App):
        ip.unsupported(f"isinstance of {v.name}")
    return isinstance(v, cs)


def call_builtin(ip, f, args, kwargs, node=None, pyfn=None):
    n = f.name
    if n.startswith("builtins."):
        n = n[9:]
    ctx = ip.ctx
    if n == "noop":
        return None
    if n.startswith("str.") and f.self_arg is not None:
        return str_method(ip, n[4:], f.self_arg, args, kwargs, node)
    if n.startswith(("list.", "set.")) and f.self_arg is not None:
        return list_method(ip, n.split(".", 1)[1], f.self_arg, args, kwargs, node)
    if n.startswith("dict.") and f.self_arg is not None:
        return dict_method(ip, n[5:], f.self_arg, args, kwargs, node)
    if n.startswith("slot."):
        return slot_method(ip, n[5:], f.self_arg, args, kwargs, node)
    if n == "file.read" and f.self_arg.fields["mode"] == "r":
        return f.self_arg.fields["content"]
    if n == "file.write":
        h = f.self_arg
        ctx.setloc(("fld", h, "content"), SStr(h.fields["content"].pieces + ip.pieces(ip.narrow(args[0]))))
        return None
    if n == "file.writelines":
        h = f.self_arg
        ctx.setloc(("fld", h, "content"), SStr(h.fields["content"].pieces + str_items(ip, ip.items_of(args[0], node))))
        return None
    if n == "file.close":
        close_file(ip, f.self_arg)
        return None
    if n == "int.bit_length":
        return bit_length(ip, f.self_arg)
    if n == "len":
        return ip.length(args[0]) if not isinstance(args[0], SVal) else ip.length(ip.narrow(args[0]))
    if n == "isinstance":
        r = isinstance_(ip, args[0], args[1])
        return r if isinstance(r, bool) else SBool(r)
    if n == "type" and len(args) == 1:
        v = ip.narrow(args[0])
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, SRef):
            if ctx.decide(v.t == 0):
                return type(None)
            return ip.ref_class(v)
        for cl, k in ((SInt, int), (SReal, float), (SBool, bool), (SStr, str), (LList, list), (LDict, dict)):
            if isinstance(v, cl):
                return k
        return type(v)
    if n in ("any", "all"):
        x = args[0]
        if isinstance(x, GenVal):
            x = ip.gen_list(x)
        items = x.items if isinstance(x, LList) else ip.items_of(x, node)
        if n == "any":
            r = ip.exists_item(items, lambda v: ip.truth(v))
        else:
            r = ip.neg(ip.exists_item(items, lambda v: ip.neg(ip.truth(v))))
        if isinstance(r, bool):
            return r
        return SBool(z3.simplify(r))
    if n == "next" and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.GeneratorExp):
        x = args[0]
        l = x if isinstance(x, LList) else ip.gen_list(x)
        if len(args) > 1 and not ctx.decide(ip.f(ip.nonempty(l.items))):
            return args[1]
        try:
            return ip.first(l, node)
        except PyRaise as e:
            if e.cls is IndexError:
                raise PyRaise(StopIteration)
            raise
    if n == "sum":
        fr = Frame(None, {}, ctx.stamp())
        fr.vars["acc"] = args[1] if len(args) > 1 else 0

        def visit(v):
            ip.assign_name(fr, "acc", ip.binop(ast.Add(), fr.vars["acc"], v, node))
        ip.iterate(ip.items_of(args[0], node), visit)
        return fr.vars["acc"]
    if n in ("max", "min"):
        return maxmin(ip, n, args, kwargs, node)
    if n == "abs":
        v = ip.narrow(args[0])
        if isinstance(v, (int, float)):
            return abs(v)
        k, t = ip.num(v)
        return ip.mknum(k, z3.If(t >= 0, t, -t))
    if n == "divmod":
        return (ip.binop(ast.FloorDiv(), args[0], args[1], node), ip.binop(ast.Mod(), args[0], args[1], node))
    if n == "pow" and len(args) == 2:
        return ip.binop(ast.Pow(), args[0], args[1], node)
    if n == "enumerate":
        return enumerate_(ip, args, kwargs, node)
    if n == "range":
        return range_(ip, args, node)
    if n == "zip":
        ls = [ip.items_of(a, node) for a in args]
        if all(all(isinstance(i, E) for i in l) for l in ls):
            return ip.new_list(tuple(E(tuple(x.v for x in t)) for t in zip(*ls)))
        if len(ls) == 2 and all(len(l) == 1 and isinstance(l[0], Fold) and ip.is_map(l[0]) for l in ls):
            a, b = ls[0][0], ls[1][0]
            if z3.simplify(a.base.length - b.base.length).eq(z3.IntVal(0)):
                i = z3.Int(f"i!{ctx.stamp()}")
                cases = [(z3.And(subst(c1, [(a.idx, i)]), subst(c2, [(b.idx, i)])),
                          (E((subst(d1[0].v, [(a.idx, i)]), subst(d2[0].v, [(b.idx, i)]))),)) for c1, d1 in a.cases for c2, d2 in b.cases]
                fo = IFold(a.base, i, cases)
                fo.total = True
                return ip.new_list((fo,))
        ip.unsupported("zip", node)
    if n == "reversed":
        its = ip.items_of(args[0], node)
        if all(isinstance(i, E) for i in its):
            return ip.new_list(tuple(reversed(its)))
        ip.unsupported("reversed", node)
    if n == "sorted":
        return sorted_(ip, args, kwargs, node)
    if n in ("map", "filter"):
        out = ip.new_list()

        def visit(v):
            if n == "map":
                ip.set_items(out, out.items + (E(ip.call(args[0], [v], {}, node)),))
            else:
                c = v if args[0] is None else ip.call(args[0], [v], {}, node)
                if ip.branch(c):
                    ip.set_items(out, out.items + (E(v),))
        ip.iterate(ip.items_of(args[1], node), visit)
        return out
    if n == "str":
        return to_str(ip, args[0]) if args else ""
    if n == "repr":
        return SStr((App("repr", (frozen(args[0]),)),))
    if n == "format":
        return fmt(ip, args[0], args[1] if len(args) > 1 else "")
    if n == "hex" and isinstance(args[0], int):
        return hex(args[0])
    if n == "bool":
        t = ip.truth(args[0]) if args else False
        return t if isinstance(t, bool) else SBool(t)
    if n == "int":
        return int_(ip, args, node)
    if n == "float":
        v = ip.narrow(args[0])
        if isinstance(v, (int, float)):
            return float(v)
        k, t = ip.num(v)
        return SReal(z3.ToReal(t) if k == "int" else t)
    if n == "list" or n == "tuple":
        if not args:
            return ip.new_list() if n == "list" else ()
        a = args[0]
        if isinstance(a, LList) and a.kind in ("set", "bag"):
            return ip.new_list(a.items, "bag")
        if isinstance(a, SetDiff):
            return SetDiffList(a)
        its = ip.items_of(a, node)
        if n == "tuple" and all(isinstance(i, E) for i in its):
            return tuple(i.v for i in its)
        return ip.new_list(its)
    if n in ("set", "frozenset"):
        if not args:
            return ip.new_list((), "set")
        a = args[0]
        if isinstance(a, SetDiff):
            return a
        if isinstance(a, LList):
            return ip.new_list(a.items, "set")
        if isinstance(a, LDict):
            return ip.new_list(ip.map_items(a.items, lambda kv: kv[0]), "set")
        return ip.new_list(ip.items_of(a, node), "set")
    if n == "dict":
        if not args and not kwargs:
            return LDict((), ctx.stamp())
        if args and isinstance(args[0], LDict):
            return LDict(args[0].items, ctx.stamp())
        if args:
            return LDict(tuple(ip.items_of(args[0], node)), ctx.stamp())
        return LDict(tuple(E((k, v)) for k, v in kwargs.items()), ctx.stamp())
    if n == "getattr":
        if isinstance(args[1], str):
            ip.in_try += 1
            try:
                return ip.getattr(args[0], args[1], node)
            except PyRaise as e:
                if e.cls is AttributeError and len(args) > 2:
                    return args[2]
                raise
            finally:
                ip.in_try -= 1
    if n == "hasattr" and isinstance(args[1], str):
        ip.in_try += 1
        try:
            ip.getattr(args[0], args[1], node)
            return True
        except PyRaise as e:
            if e.cls is AttributeError:
                return False
            raise
        finally:
            ip.in_try -= 1
    if n == "callable":
        return isinstance(args[0], (FuncVal, Builtin, LambdaVal, type, types.FunctionType))
    if n == "print":
        return None
    if n == "id" or n == "hash":
        ip.unsupported(n, node)
    if n == "open":
        return open_(ip, args, kwargs, node)
    if n == "math.log":
        x = ip.concretize_int(ip.narrow(args[0]))
        if isinstance(x, SInt):
            ip.unsupported("math.log", node)
        try:
            return math.log(x, *args[1:])
        except Exception as e:
            raise PyRaise(type(e))
    if n in ("math.log2", "math.ceil", "math.floor"):
        x = ip.narrow(args[0])
        if n == "math.log2":
            x = ip.concretize_int(x)
        if not isinstance(x, Sym):
            try:
                return getattr(math, n[5:])(x)
            except Exception as e:
                raise PyRaise(type(e))
        k, t = ip.num(x)
        if k == "int":
            return x
        if n == "math.ceil":
            return SInt(-z3.ToInt(-t))
        if n == "math.floor":
            return SInt(z3.ToInt(t))
    if n == "sys.exit":
        raise PyRaise(SystemExit)
    if n == "struct.pack":
        ASSUMED.add("struct.pack encodes or raises struct.error")
        import struct
        a = tuple(narrow_num(ip, x) for x in args)
        app = App("struct.pack", a)
        ip.raise_if(z3.Not(ip.app_bool("packs", app)), struct.error)
        return app
    if n.startswith("posixpath.") or n.startswith("os.path."):
        base = "os.path." + n.rsplit(".", 1)[1]
        ASSUMED.add(base)
        if base in ("os.path.isdir", "os.path.exists", "os.path.isfile"):
            return SBool(ip.app_bool(base, App(base, tuple(args))))
        return SStr((App(base, tuple(args)),))
    if n in ("pathlib.Path", "pathlib.PurePath"):
        return App("pathlib.Path", tuple(args))
    if n in ("os.makedirs", "os.mkdir"):
        ASSUMED.add("directory creation (dropped)")
        return None
    if n.startswith("app."):
        ap = f.self_arg
        if n == "app.mkdir":
            ASSUMED.add("directory creation (dropped)")
            return None
        if ap.name == "pathlib.Path" and n in ("app.is_dir", "app.exists"):
            return SBool(ip.app_bool("os.path.isdir", App("os.path.isdir", ap.args)))
    if n == "collections.Counter":
        return counter(ip, args, node)
    if n == "itertools.chain" or n == "itertools.chain.from_iterable":
        out = ip.new_list()
        if n == "itertools.chain":
            for a in args:
                ip.set_items(out, out.items + ip.items_of(a, node))
        else:
            ip.iterate(ip.items_of(args[0], node), lambda v: ip.set_items(out, out.items + ip.items_of(v, node)))
        return out
    if n in ("copy.copy",) and isinstance(args[0], LList):
        return ip.new_list(args[0].items, args[0].kind)
    ip.unsupported(f"call of {n}", node)


def narrow_num(ip, x):
    x = ip.narrow(x)
    return x


class SetDiffList(SetDiff):
    def __init__(self, d):
        SetDiff.__init__(self, d.a, d.b)


def counter(ip, args, node):
    a = args[0]
    if isinstance(a, GenVal):
        a = ip.gen_list(a)
    if isinstance(a, LList) and a.kind == "list":
        return CounterVal(LList(a.items))
    ip.unsupported("Counter", node)


def bit_length(ip, x):
    if isinstance(x, int):
        return x.bit_length()
    t = x.t
    ctx = ip.ctx
    n = ctx.func("bit_length", IntS, IntS)(t)
    a = z3.If(t >= 0, t, -t)
    fs = [n >= 0]
    for k in range(0, 67):
        fs.append((n <= k) == (a < z3.IntVal(1 << k)))
    ctx.assume(z3.And(fs))
    return SInt(n)


def maxmin(ip, n, args, kwargs, node):
    if kwargs and set(kwargs) - {"default"}:
        ip.unsupported(f"{n} with key", node)
    if len(args) > 1:
        vals = args
    else:
        x = args[0]
        if isinstance(x, GenVal):
            x = ip.gen_list(x)
        items = x.items if isinstance(x, LList) else ip.items_of(x, node)
        if not all(isinstance(i, E) for i in items):
            return fold_max(ip, n, items, kwargs, node)
        vals = [i.v for i in items]
        if not vals:
            if "default" in kwargs:
                return kwargs["default"]
            raise PyRaise(ValueError)
    cur = ip.narrow(vals[0])
    for v in vals[1:]:
        v = ip.narrow(v)
        if not isinstance(cur, Sym) and not isinstance(v, Sym):
            cur = max(cur, v) if n == "max" else min(cur, v)
            continue
        ka, a = ip.num(cur)
        kb, b = ip.num(v)
        if ka == kb:
            cur = ip.mknum(ka, z3.If((b > a) if n == "max" else (b < a), b, a))
        else:
            c = ip.compare(ast.Gt() if n == "max" else ast.Lt(), v, cur)
            cur = v if ip.ctx.decide(ip.f(c)) else cur
    return cur


def fold_max(ip, n, items, kwargs, node):
    if not ip.ctx.decide(ip.f(ip.nonempty(items))):
        if "default" in kwargs:
            return kwargs["default"]
        raise PyRaise(ValueError)
    if len(items) != 1 or not isinstance(items[0], Fold):
        ip.unsupported(n, node)
    fo = items[0]
    cases = []
    for c, d in fo.cases:
        if len(d) > 1 or any(not isinstance(x, E) for x in d):
            ip.unsupported(n, node)
        for x in d:
            k, t = ip.num(x.v)
            if k != "int":
                ip.unsupported(n, node)
            cases.append((c, t))
    return SInt(ip.numfold(n, fo.base, fo.idx, cases))


def int_(ip, args, node):
    if not args:
        return 0
    v = ip.narrow(args[0])
    if isinstance(v, (int, float)) or isinstance(v, str):
        try:
            return int(v, *args[1:]) if isinstance(v, str) else int(v)
        except Exception as e:
            raise PyRaise(type(e))
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, 1, 0))
    if isinstance(v, SReal):
        t = v.t
        return ip.mknum("int", z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    ip.unsupported("int()", node)


def enumerate_(ip, args, kwargs, node):
    start = args[1] if len(args) > 1 else kwargs.get("start", 0)
    items = ip.items_of(args[0], node)
    off = ip.num(start)[1]
    out = []
    for it in items:
        if isinstance(it, E):
            out.append(E((ip.mknum("int", off), it.v)))
            off = off + 1
        elif isinstance(it, Fold) and ip.is_map(it):
            n = IFold(it.base, it.idx, [(c, (E((ip.mknum("int", off + it.idx), d[0].v)),)) for c, d in it.cases])
            n.total = True
            out.append(n)
            off = off + it.base.length
        else:
            ip.unsupported("enumerate of a filtered list", node)
    return ip.new_list(tuple(out))


def range_(ip, args, node):
    a = [ip.narrow(x) for x in args]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 300:
            ip.unsupported("long range", node)
        return ip.new_list(tuple(E(x) for x in r))
    if len(a) == 3:
        ip.unsupported("range with step", node)
    lo = ip.num(a[0])[1] if len(a) == 2 else z3.IntVal(0)
    hi = ip.num(a[-1])[1]
    n = z3.simplify(hi - lo)
    b = Base(ip.ctx, "range", "range", (lo,), z3.If(n > 0, n, z3.IntVal(0)), ("int",))
    fo = IFold(b, z3.Int(f"i!{ip.ctx.stamp()}"), [])
    fo.cases = [(z3.BoolVal(True), (E(SInt(z3.simplify(lo + fo.idx))),))]
    fo.total = True
    fo.ident = True
    return ip.new_list((fo,))


def sorted_(ip, args, kwargs, node):
    if kwargs:
        ip.unsupported("sorted with key", node)
    x = args[0]
    if isinstance(x, GenVal):
        x = ip.gen_list(x)
    if isinstance(x, LList) and all(isinstance(i, E) for i in x.items):
        vs = [i.v for i in x.items]
        if not any(isinstance(v, Sym) for v in vs):
            return ip.new_list(tuple(E(v) for v in sorted(vs)))
    return ip.new_list(app_list(ip, "sorted", (frozen(x),), ("str",)))


def app_list(ip, name, args, elem_type):
    """list that is an uninterpreted function of its arguments"""
    e = ip.encode(args)
    ip.shapes_used.add(f"list:{name}")
    if e is not None:
        return ip.ident(ip.ctx.fn_base(f"{name}:{e[0]}", tuple(e[1]), elem_type))
    for (n, a, b) in ip.world.appints:
        if n == "app_list" and a[0] == name and ip.same_syntax(a[1], args):
            base = b
            break
    else:
        ln = ip.ctx.fresh("len_" + name, IntS)
        ip.ctx.assume(ln >= 0)
        base = Base(ip.ctx, "app", name, args, ln, elem_type)
        ip.world.appints.append(("app_list", (name, args), base))
    i = z3.Int(f"i!{ip.ctx.stamp()}")
    fo = IFold(base, i, [(z3.BoolVal(True), (E(SStr((App("elem", (name, args, SInt(i))),))),))])
    fo.total = True
    return (fo,)


def open_(ip, args, kwargs, node):
    a = list(args)
    path = a[0] if a else kwargs.get("file")
    mode = a[1] if len(a) > 1 else kwargs.get("mode", "r")
    if mode == "r":
        p = ip.encode((path,))
        if p is None:
            ip.unsupported("open for reading", node)
        ASSUMED.add("the content of a file that is read")
        o = Obj("file", ip.ctx.stamp())
        o.fields.update(path=path, mode=mode, content=SStr((ip.ctx.func("text of file:" + p[0], *[t.sort() for t in p[1]], IntS)(*p[1]),)))
        return o
    if not isinstance(mode, str) or mode[0] not in "wa":
        ip.unsupported("open for reading", node)
    o = Obj("file", ip.ctx.stamp())
    o.fields.update(path=path, mode=mode, content=SStr(()))
    return o


def external_class(ip, cls, args, kwargs, node):
    m = cls.__module__
    if m == "collections" and cls is collections.Counter:
        return counter(ip, args, node)
    if m.startswith("collections") and cls is collections.OrderedDict and not args:
        return LDict((), ip.ctx.stamp())
    if cls.__name__ in ("Path", "PosixPath", "PurePath"):
        return App("pathlib.Path", tuple(args))
    if m == "cgen" or m.startswith("cgen."):
        try:
            b = inspect.signature(cls.__init__).bind(None, *args, **kwargs)
            b.apply_defaults()
        except TypeError:
            raise PyRaise(TypeError)
        ASSUMED.add("text layout of the cgen classes")
        if cls.__name__ == "LineComment":
            b.arguments["text"] = ip.narrow(b.arguments["text"])
            if b.arguments["text"] is None:
                raise PyRaise(TypeError)
            if not isinstance(b.arguments["text"], (str, SStr)):
                ip.unsupported("comment text", node)
        return App("cgen." + cls.__name__, tuple((k, frozen(v)) for k, v in list(b.arguments.items())[1:]))
    if m.startswith("itertools"):
        return call_builtin(ip, Builtin(f"itertools.{cls.__name__}"), args, kwargs, node)
    ip.unsupported(f"class {m}.{cls.__name__}", node)
