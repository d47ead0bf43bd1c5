"""Symbolic interpreter for the Python subset used by the code under /repo.

Runs the ASTs of the real functions.  Dropped (stated in DESIGN.md): logging
calls, annotations, docstrings, the message arguments of raise/assert.
"""
import ast
import enum
import inspect
import math
import string
import types
import z3
from .values import *
from .logs import log_entries, only_sets
from .ctx import Ctx, Macro, contains, mentions, has_prev, subst, forall, exists, Forall, Exists, frac, index_consts


class Frame(Stamped):
    def __init__(self, fn, glob, stamp, owner=None):
        self.vars = {}
        self.fn, self.glob, self.stamp, self.owner = fn, glob, stamp, owner


class GlobalsFrame:
    pass


CANON = z3.Int("cj!0")


def depth_of(it):
    return 1 + max([depth_of(x) for _, d in it.cases for x in d if isinstance(x, Fold)] or [0])


NUM = (int, float, SInt, SReal, SBool, bool)


NOTHING = object()


def dotted(n):
    return isinstance(n, ast.Name) or isinstance(n, ast.Attribute) and dotted(n.value)


class Interp:
    def __init__(self, ctx, world):
        self.ctx, self.world = ctx, world
        self.heap = LList((), 0, "heap")
        self.effects = LList((), 0, "effects")
        self.classattrs = Obj("classattrs", 0)
        self.spec_mode = 0
        self.verifying = None
        self.verifying_depth = 0
        self.depth = 0
        self.in_try = 0
        self.opaque_calls = {}
        self.shapes_used = set()
        self.merge_ifs = False
        self.prev_reads = []
        self.preserved = []      # functions of an object that a chain of references may keep (stated by the contract)
        self.handles = {}       # (owner, field) -> list values read from that field
        self.globs = {}
        self.caps = {}
        self.mem_holes = []
        self.oblig = []          # obligations raised inside (requires at calls)
        self.numfolds = []
        self.inlined = set()
        self.used_contracts = set()
        self.registered = {}     # lists with membership predicate (invariant.py)
        self.inv_goals = 0
        self.inv_state = []
        self.active = None       # contract whose loop invariants apply

    # ------------------------------------------------------------------ util
    def require(self, f, what):
        """precondition of a callee, an obligation of the caller"""
        f = self.f(f)
        if self.ctx.check(z3.Not(f), timeout=8000) != z3.unsat:
            raise Unsupported(f"precondition of {what} not established")

    def raise_if(self, cond, cls, where=None):
        if cond is True:
            raise PyRaise(cls, where)
        if cond is False:
            return
        if not self.in_try and self.ctx.side_raise(cond, PyRaise(cls, where)):
            return
        if self.ctx.decide(cond):
            raise PyRaise(cls, where)

    def unsupported(self, why, node=None):
        ln = f" line {node.lineno}" if node is not None and hasattr(node, "lineno") else ""
        raise Unsupported(why + ln)

    def new_list(self, items=(), kind="list"):
        return LList(items, self.ctx.stamp(), kind)

    def wrap(self, v, name="?"):
        """bring a concrete Python value of the real module into the interpreter"""
        if isinstance(v, (list, set, frozenset)):
            k = ("g", id(v))
            if k not in self.globs:
                self.world.keep.append(v)
                seq = v if isinstance(v, list) else sorted(v, key=repr)
                self.globs[k] = LList(tuple(E(self.wrap(x, name)) for x in seq), 0,
                                      "list" if isinstance(v, list) else "set", ("global", name))
            return self.globs[k]
        if isinstance(v, dict) and not isinstance(v, type):
            k = ("g", id(v))
            if k not in self.globs:
                self.world.keep.append(v)
                self.globs[k] = LDict(tuple(E((self.wrap(a, name), self.wrap(b, name))) for a, b in v.items()), 0, ("global", name))
            return self.globs[k]
        if isinstance(v, tuple):
            return tuple(self.wrap(x, name) for x in v)
        return v

    # ----------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, (bool, int, float, str)) or v is None:
            return bool(v)
        if isinstance(v, enum.Enum):
            return bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SReal):
            return v.t != 0
        if isinstance(v, SEnum):
            return v.t != 0
        if isinstance(v, SRef):
            for c in v.classes:
                if any(hasattr(c, m) for m in ("__bool__", "__len__")):
                    self.unsupported("truth of object with __bool__/__len__")
            return v.t != 0
        if isinstance(v, SVal):
            t = v.t
            return z3.Or(z3.And(Val.is_int(t), Val.i(t) != 0), z3.And(Val.is_real(t), Val.r(t) != 0),
                         z3.And(Val.is_bool(t), Val.b(t)), z3.And(Val.is_str(t), Val.s(t) != self.ctx.lit("")),
                         Val.is_ref(t))
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.pieces):
                return True
            if not v.pieces:
                return False
            fs = []
            for p in v.pieces:
                if isinstance(p, z3.ExprRef):
                    fs.append(self.nonempty_term(p))
                elif isinstance(p, App):
                    if p.name in ("fmt", "join", "str"):
                        fs.append(self.app_bool("nonempty", p))
                    else:
                        fs.append(self.app_bool("nonempty", p))
                elif isinstance(p, Fold):
                    fs.append(self.fold_exists(p, lambda items: self.truth(SStr(items))))
                else:
                    self.unsupported("truth of string accumulator")
            return z3.Or([f if not isinstance(f, bool) else z3.BoolVal(f) for f in fs])
        if isinstance(v, (LList, LDict)):
            return self.nonempty(v.items)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, SetDiff):
            return self.setdiff_nonempty(v)
        if isinstance(v, Obj) or isinstance(v, type):
            return True
        if isinstance(v, Poison):
            self.unsupported(f"read of {v.why}")
        if isinstance(v, Havoc):
            return self.ctx.fresh("havoc", BoolS)
        if isinstance(v, App):
            return self.app_bool("truth", v)
        self.unsupported(f"truth of {v!r}")

    def nonempty_term(self, t):
        # known to be non-empty: text of a number
        if z3.is_app(t) and t.decl().name() in ("str_of_int", "str_of_real"):
            return True
        if z3.is_app(t) and t.decl().name() in self.world.strfuncs and t.num_args() == 1:
            return self.nonempty_term(t.arg(0))
        return t != self.ctx.lit("")

    def branch(self, v):
        return self.ctx.decide(self.truth(v))

    def as_formula(self, v):
        f = self.truth(v)
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def app_bool(self, name, app):
        """uninterpreted boolean for an opaque value; equal apps share it"""
        e = self.encode(app)
        if e is not None:
            return self.ctx.func(f"{name}:{e[0]}", *[t.sort() for t in e[1]], BoolS)(*e[1]) if e[1] else z3.Bool(f"{name}:{e[0]}")
        for (n, a, c) in self.world.appbools:
            if n == name and self.same_syntax(a, app):
                return c
        c = self.ctx.fresh("app_" + name, BoolS)
        self.world.appbools.append((name, app, c))
        return c

    def encode(self, v):
        """(shape, terms) identifying a value built from terms, or None"""
        ts = []

        def go(v):
            if isinstance(v, z3.ExprRef):
                ts.append(v)
                return "_"
            if isinstance(v, (SInt, SReal, SBool, SEnum, SRef, SVal)):
                ts.append(v.t)
                return type(v).__name__[1]
            if isinstance(v, SStr):
                return "s(" + "+".join(repr(p) if isinstance(p, str) else go(p) for p in v.pieces) + ")"
            if isinstance(v, str) and not isinstance(v, enum.Enum):
                return "s(" + (repr(v) if v else "") + ")"
            if isinstance(v, App):
                return v.name + "(" + ",".join(go(a) for a in v.args) + ")"
            if isinstance(v, tuple):
                return "(" + ",".join(go(a) for a in v) + ")"
            if isinstance(v, SMap):
                return f"map {v.name}(" + ",".join(go(a) for a in v.args) + ")"
            if isinstance(v, LList):
                return v.kind + "[" + ",".join(go(a) for a in v.items) + "]"
            if isinstance(v, SetDiff):
                return "diff(" + go(v.a) + "," + go(v.b) + ")"
            if isinstance(v, LDict):
                return "dict[" + ",".join(go(a) for a in v.items) + "]"
            if isinstance(v, E):
                return go(v.v)
            if isinstance(v, IFold) and v.ident and v.base.kind == "fn":
                return f"base {v.base.name}(" + ",".join(go(a) for a in v.base.args) + ")"
            if isinstance(v, Fold):
                # closed form as text: bound index and loop indices canonical
                return self.fold_text(v, ts, [])
            if v is None or isinstance(v, (bool, int, float, enum.Enum)):
                return repr(v)
            if isinstance(v, type):
                return v.__qualname__
            if isinstance(v, Obj) and isinstance(v.cls, type):
                return v.cls.__qualname__ + "{" + ",".join(f + "=" + go(v.fields[f]) for f in sorted(v.fields)) + "}"
            raise Unsupported("encode")
        try:
            return go(v), ts
        except Unsupported:
            return None

    def fold_text(self, v, ts, bound):
        pairs = [(i, z3.Int(f"#a{n}")) for n, i in enumerate(self.ctx.idx)]
        if pairs and mentions(v, {i.get_id() for i, _ in pairs}):
            for i, _ in pairs:
                if not any(t.eq(i) for t in ts):
                    ts.append(i)
                else:
                    ts.append(i)

        def text(x, bound):
            if isinstance(x, z3.ExprRef):
                return z3.simplify(z3.substitute(x, *(pairs + bound)) if pairs + bound else x).sexpr()
            if isinstance(x, (SInt, SReal, SBool, SEnum, SRef, SVal)):
                return type(x).__name__ + text(x.t, bound)
            if isinstance(x, str) and not isinstance(x, enum.Enum):
                return repr(x)
            if isinstance(x, SStr):
                return "s(" + "+".join(text(p, bound) for p in x.pieces) + ")"
            if isinstance(x, App):
                return x.name + "(" + ",".join(text(a, bound) for a in x.args) + ")"
            if isinstance(x, E):
                return text(x.v, bound)
            if isinstance(x, tuple):
                return "(" + ",".join(text(a, bound) for a in x) + ")"
            if isinstance(x, (LList, LDict)):
                return x.kind + "[" + ",".join(text(a, bound) for a in x.items) + "]"
            if isinstance(x, Base):
                return f"{x.kind} {x.name}(" + ",".join(text(a, bound) for a in x.args) + "|" + text(x.length, bound) + ")"
            if isinstance(x, Fold):
                if getattr(x, "ident", False):
                    return "all " + text(x.base, bound)
                b2 = bound + [(x.idx, z3.Int(f"#b{len(bound)}"))]
                return "fold(" + text(x.base, bound) + ";" + ";".join(text(c, b2) + "=>" + text(d, b2) for c, d in x.cases) + ")"
            if x is None or isinstance(x, (bool, int, float, enum.Enum)):
                return repr(x)
            if isinstance(x, type):
                return x.__qualname__
            if isinstance(x, Obj) and isinstance(x.cls, type):
                return x.cls.__qualname__ + "{" + ",".join(f + "=" + text(x.fields[f], bound) for f in sorted(x.fields)) + "}"
            raise Unsupported("encode")
        return f"fold#{self.world.shapes.setdefault(text(v, bound), len(self.world.shapes))}"

    def same_syntax(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, App):
            return a.name == b.name and len(a.args) == len(b.args) and all(self.same_syntax(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, (SInt, SReal, SBool, SEnum, SRef, SVal)):
            return a.t.eq(b.t)
        if isinstance(a, SStr):
            return len(a.pieces) == len(b.pieces) and all(self.same_syntax(x, y) for x, y in zip(a.pieces, b.pieces))
        if isinstance(a, (LList, LDict)):
            return len(a.items) == len(b.items) and all(self.same_syntax(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, E):
            return self.same_syntax(a.v, b.v)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same_syntax(x, y) for x, y in zip(a, b))
        if isinstance(a, Obj):
            return a is b
        if isinstance(a, SetDiff):
            return self.same_syntax(a.a, b.a) and self.same_syntax(a.b, b.b)
        if isinstance(a, Base):
            return a is b or (a.kind == b.kind and a.name == b.name and a.length.eq(b.length) and self.same_syntax(a.args, b.args))
        if isinstance(a, Fold):
            if a is b:
                return True
            if len(a.cases) != len(b.cases) or not self.same_syntax(a.base, b.base):
                return False
            r = [(b.idx, a.idx)]
            for (c, d), (c2, d2) in zip(a.cases, b.cases):
                if not a.idx.eq(b.idx):
                    c2, d2 = subst(c2, r), subst(d2, r)
                if not c.eq(c2) or not self.same_syntax(tuple(d), tuple(d2)):
                    return False
            return True
        try:
            return bool(a == b)
        except Exception:
            return False

    # ------------------------------------------------------------- narrowing
    def narrow(self, v):
        """turn a union value into a scalar of one kind (forks)"""
        if isinstance(v, Poison):
            self.unsupported(f"read of {v.why}")
        if not isinstance(v, SVal):
            return v
        kinds = []
        for ty in v.types:
            if ty[0] not in [k for k, _ in kinds]:
                kinds.append((ty[0], ty))
        conds = [getattr(Val, "is_" + k)(v.t) for k, _ in kinds]
        if len(conds) == 1:
            self.ctx.assume(conds[0])
        k, ty = kinds[self.ctx.choose(conds) if len(conds) > 1 else 0]
        t = v.t
        if k == "none":
            return None
        if k == "int":
            return SInt(Val.i(t))
        if k == "real":
            return SReal(Val.r(t))
        if k == "bool":
            return SBool(Val.b(t))
        if k == "str":
            return SStr((Val.s(t),))
        cl = []
        for ty in v.types:
            if ty[0] == "ref":
                cl.extend(ty[1])
        # the reference of a union value is never None
        self.ctx.assume_type(Val.o(t), ("ref", tuple(cl), False))
        return SRef(Val.o(t), cl)

    def concretize_enum(self, v):
        if isinstance(v, SEnum):
            ms = list(v.cls)
            j = self.ctx.choose([v.t == k for k in range(len(ms) + 1)])
            return None if j == 0 else ms[j - 1]
        return v

    def concretize_int(self, v, limit=140):
        if isinstance(v, SInt):
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return t.as_long()
            # enumerate the (finite) feasible values deterministically
            key = t.get_id()
            ex = self.ctx.stack[-1]
            vals = self.world.enumcache.get((key, len(ex.taken), tuple(ex.taken)))
            if vals is None:
                vals = []
                self.ctx.solver.push()
                while True:
                    r = self.ctx.feasible()
                    if r == z3.unsat:
                        break
                    if r != z3.sat or len(vals) > limit:
                        self.ctx.solver.pop()
                        self.unsupported("value cannot be enumerated")
                    m = self.ctx.solver.fast.model().eval(t, model_completion=True)
                    vals.append(m.as_long())
                    self.ctx.solver.add(t != m)
                self.ctx.solver.pop()
                vals.sort()
                self.world.keep.append(t)
                self.world.enumcache[(key, len(ex.taken), tuple(ex.taken))] = vals
            if not vals:
                raise Infeasible()
            return vals[self.ctx.choose([t == x for x in vals])]
        return v

    # -------------------------------------------------------------- equality
    def eq(self, a, b):
        """a == b as Python bool or formula"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            self.unsupported(f"read of {(a if isinstance(a, Poison) else b).why}")
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            return self.ctx.fresh("havoc", BoolS)
        if a is b and not isinstance(a, float):
            return True
        if isinstance(b, SVal) and not isinstance(a, SVal):
            a, b = b, a
        if isinstance(a, SVal):
            t = a.t
            if isinstance(b, SVal):
                if not any(ty[0] in ("int", "real", "bool") for ty in a.types):
                    return t == b.t
                u = b.t
                num = lambda x: z3.If(Val.is_int(x), z3.ToReal(Val.i(x)), z3.If(Val.is_real(x), Val.r(x), z3.If(Val.b(x), z3.RealVal(1), z3.RealVal(0))))
                isnum = lambda x: z3.Or(Val.is_int(x), Val.is_real(x), Val.is_bool(x))
                return z3.If(z3.And(isnum(t), isnum(u)), num(t) == num(u), t == u)
            if b is None:
                return Val.is_none(t)
            if isinstance(b, (str, SStr)) and not isinstance(b, enum.Enum):
                return z3.And(Val.is_str(t), self.f(self.eq(SStr((Val.s(t),)), b)))
            if isinstance(b, SRef):
                return z3.And(Val.is_ref(t), Val.o(t) == b.t)
            if isinstance(b, NUM):
                kind, x = self.num(b)
                if kind == "int":
                    return z3.Or(z3.And(Val.is_int(t), Val.i(t) == x), z3.And(Val.is_real(t), Val.r(t) == z3.ToReal(x)),
                                 z3.And(Val.is_bool(t), z3.If(Val.b(t), 1, 0) == x))
                return z3.Or(z3.And(Val.is_int(t), z3.ToReal(Val.i(t)) == x), z3.And(Val.is_real(t), Val.r(t) == x))
            if isinstance(b, enum.Enum):
                return False
            return False
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            if not isinstance(a, SEnum):
                a, b = b, a
            if isinstance(b, SEnum):
                return a.t == b.t
            if b is None:
                return a.t == 0
            if isinstance(b, a.cls):
                return a.t == list(a.cls).index(b) + 1
            if isinstance(b, str) and issubclass(a.cls, str):
                for k, m in enumerate(list(a.cls)):
                    if m == b:
                        return a.t == k + 1
            return False
        if isinstance(a, SRef) or isinstance(b, SRef):
            if not isinstance(a, SRef):
                a, b = b, a
            if isinstance(b, SRef):
                return a.t == b.t
            if b is None:
                return a.t == 0
            return False
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_eq(a, b)
        if isinstance(a, NUM) and isinstance(b, NUM):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if isinstance(a, SBool) and isinstance(b, SBool):
                return a.t == b.t
            ka, x = self.num(a)
            kb, y = self.num(b)
            if ka != kb:
                x = z3.ToReal(x) if ka == "int" else x
                y = z3.ToReal(y) if kb == "int" else y
            return x == y
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (LList, LDict)) and isinstance(b, (LList, LDict)):
            if all(isinstance(x, E) for x in a.items) and all(isinstance(x, E) for x in b.items) and a.kind == b.kind == "list":
                if len(a.items) != len(b.items):
                    return False
                return self.conj([self.eq(x.v, y.v) for x, y in zip(a.items, b.items)])
            self.unsupported("equality of symbolic lists")
        if isinstance(a, App) or isinstance(b, App):
            if isinstance(a, App) and isinstance(b, App) and self.same_syntax(a, b):
                return True
            return self.app_bool("eq", App("eq", (a, b)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        if isinstance(a, (Obj, LList, LDict)) or isinstance(b, (Obj, LList, LDict)):
            return False
        return a == b

    def f(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    def conj(self, fs):
        out = []
        for f in fs:
            if f is False:
                return False
            if f is True:
                continue
            out.append(f)
        return z3.And(out) if out else True

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        pa = list(a.pieces) if isinstance(a, SStr) else ([a] if a else [])
        pb = list(b.pieces) if isinstance(b, SStr) else ([b] if b else [])
        # strip equal prefix / suffix
        def same(x, y):
            return type(x) is type(y) and self.same_syntax(x, y)
        while pa and pb and same(pa[0], pb[0]):
            pa.pop(0), pb.pop(0)
        while pa and pb and same(pa[-1], pb[-1]):
            pa.pop(), pb.pop()
        while pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            x, y = pa[0], pb[0]
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
        if not pa and not pb:
            return True
        if len(pa) <= 1 and len(pb) <= 1:
            x = pa[0] if pa else ""
            y = pb[0] if pb else ""
            if isinstance(y, z3.ExprRef) and not isinstance(x, z3.ExprRef):
                x, y = y, x
            if isinstance(x, z3.ExprRef):
                if isinstance(y, z3.ExprRef):
                    return x == y
                if isinstance(y, str):
                    return self.term_is_lit(x, y)
            if isinstance(x, App) or isinstance(y, App):
                return self.app_bool("streq", App("streq", (x if isinstance(x, App) else SStr((x,)), y if isinstance(y, App) else SStr((y,)))))
        # literal against a concatenation that contains other literal text
        lit, other = (pa, pb) if all(isinstance(p, str) for p in pa) else (pb, pa)
        if all(isinstance(p, str) for p in lit):
            text = "".join(lit)
            need = sum(len(p) for p in other if isinstance(p, str))
            if need > len(text):
                return False
            if other and isinstance(other[0], str) and not text.startswith(other[0]):
                return False
            if other and isinstance(other[-1], str) and not text.endswith(other[-1]):
                return False
            if not text and other:
                return z3.Not(self.f(self.truth(SStr(tuple(other)))))
        x, y = SStr(tuple(pa)), SStr(tuple(pb))
        return self.app_bool("streq", App("streq", (x, y)))

    def term_is_lit(self, t, s):
        if z3.is_int_value(t):
            return self.world.litname(t.as_long()) == s
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.f(self.term_is_lit(t.arg(1), s)), self.f(self.term_is_lit(t.arg(2), s))
            return z3.simplify(z3.If(t.arg(0), a, b))
        if z3.is_app(t) and t.num_args() == 1:
            n = t.decl().name()
            fn = self.world.strfuncs.get(n)
            if fn and fn[1] is not None:
                pre = fn[1](s)
                fs = [self.f(self.term_is_lit(t.arg(0), p)) for p in pre]
                return z3.Or(fs) if fs else False
            if n == "str_of_int":
                try:
                    k = int(s)
                    if str(k) == s:
                        return t.arg(0) == k
                except ValueError:
                    pass
                return False
        return t == self.ctx.lit(s)

    def is_(self, a, b):
        if isinstance(a, SVal) and b is None:
            return Val.is_none(a.t)
        if b is None or a is None:
            return self.eq(a, b)
        if isinstance(b, bool) and isinstance(a, SBool):
            return a.t if b else z3.Not(a.t)
        if isinstance(b, bool) and isinstance(a, SVal):
            return z3.And(Val.is_bool(a.t), Val.b(a.t) if b else z3.Not(Val.b(a.t)))
        if isinstance(a, (SEnum, SRef)) or isinstance(b, (SEnum, SRef)):
            return self.eq(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            self.unsupported("'is' on symbolic scalars")
        return a is b

    # --------------------------------------------------------------- numbers
    def num(self, v):
        v = self.narrow(v)
        if isinstance(v, bool):
            return "int", z3.IntVal(int(v))
        if isinstance(v, int):
            return "int", z3.IntVal(v)
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                self.unsupported("inf/nan")
            return "real", frac(v)
        if isinstance(v, SInt):
            return "int", v.t
        if isinstance(v, SReal):
            return "real", v.t
        if isinstance(v, SBool):
            return "int", z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise PyRaise(TypeError)

    def mknum(self, kind, t):
        t = z3.simplify(t)
        if kind == "int":
            return t.as_long() if z3.is_int_value(t) else SInt(t)
        return SReal(t)

    def binop(self, op, a, b, node=None):
        a, b = self.narrow(a), self.narrow(b)
        if isinstance(a, CosSumMarker):
            pass
        strs = (str, SStr)
        if isinstance(op, ast.Add):
            if isinstance(a, strs) and isinstance(b, strs) and not isinstance(a, enum.Enum):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return SStr(self.pieces(a) + self.pieces(b))
            if isinstance(a, (App,)) and isinstance(b, strs) or isinstance(b, App) and isinstance(a, strs):
                return SStr(self.pieces(a) + self.pieces(b))
            if isinstance(a, LList) and isinstance(b, LList) and a.kind == b.kind == "list":
                return self.new_list(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.BitOr) and isinstance(a, LList) and isinstance(b, LList) and a.kind == b.kind == "set":
            return LList(a.items + b.items, self.ctx.stamp(), "set")
        if isinstance(op, ast.Sub):
            if isinstance(a, LList) and isinstance(b, LList) and a.kind == "set":
                return SetDiff(a, b)
        if isinstance(op, ast.Mult):
            if isinstance(a, (int, SInt)) and isinstance(b, strs + (LList,)):
                a, b = b, a
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, SStr) and isinstance(b, int):
                return SStr(a.pieces * b)
            if isinstance(a, strs) and isinstance(b, (SInt,)):
                return SStr((App("strmul", (a, b)),))
            if isinstance(a, LList) and isinstance(b, (int, SInt)):
                if isinstance(b, int):
                    return self.new_list(a.items * b)
                base = Base(self.ctx, "range", "range", (z3.IntVal(0),), z3.If(b.t > 0, b.t, z3.IntVal(0)), ("int",))
                fo = IFold(base, z3.Int(f"i!{self.ctx.stamp()}"), [(z3.BoolVal(True), a.items)])
                fo.total = True
                return self.new_list((fo,))
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            return SStr((App("percent", (a, b)),))
        if isinstance(a, NUM) and isinstance(b, NUM) and not isinstance(a, Sym) and not isinstance(b, Sym):
            return self.py_binop(op, a, b)
        if not (isinstance(a, NUM) and isinstance(b, NUM)):
            if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.LShift, ast.BitOr)) and not any(isinstance(x, (App, Poison)) for x in (a, b)):
                if a is None or b is None or isinstance(a, (SRef, str, SStr)) or isinstance(b, (SRef, str, SStr)):
                    raise PyRaise(TypeError)
            self.unsupported(f"{type(op).__name__} on {a!r}, {b!r}", node)
        ka, x = self.num(a)
        kb, y = self.num(b)
        if isinstance(op, ast.Div):
            x = z3.ToReal(x) if ka == "int" else x
            y = z3.ToReal(y) if kb == "int" else y
            self.raise_if(y == 0, ZeroDivisionError)
            return SReal(z3.simplify(x / y))
        if ka != kb:
            x = z3.ToReal(x) if ka == "int" else x
            y = z3.ToReal(y) if kb == "int" else y
            ka = "real"
        if isinstance(op, ast.Add):
            return self.mknum(ka, x + y)
        if isinstance(op, ast.Sub):
            return self.mknum(ka, x - y)
        if isinstance(op, ast.Mult):
            return self.mknum(ka, x * y)
        if ka != "int" and isinstance(op, (ast.LShift, ast.RShift, ast.BitOr, ast.BitAnd, ast.BitXor)):
            raise PyRaise(TypeError)
        if ka == "int":
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                self.raise_if(y == 0, ZeroDivisionError)
                # z3 div/mod are floor-like for positive divisors only
                if not self.ctx.decide(y > 0):
                    self.unsupported("division by a negative number", node)
                return self.mknum("int", x / y if isinstance(op, ast.FloorDiv) else x % y)
            if isinstance(op, (ast.LShift, ast.RShift)):
                if not isinstance(b, int):
                    b = self.concretize_int(b, 80)
                if b < 0:
                    raise PyRaise(ValueError)
                return self.mknum("int", x * (1 << b) if isinstance(op, ast.LShift) else x / (1 << b))
            if isinstance(op, ast.BitOr):
                x, y = z3.simplify(x), z3.simplify(y)
                if z3.is_int_value(x) and x.as_long() == 0:
                    return self.mknum("int", y)
                if z3.is_int_value(y) and y.as_long() == 0:
                    return self.mknum("int", x)
                return SInt(self.ctx.func("bor", IntS, IntS, IntS)(x, y))
            if isinstance(op, ast.BitAnd):
                if z3.is_int_value(y):
                    m = y.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return self.mknum("int", x % (m + 1))
                return SInt(self.ctx.func("band", IntS, IntS, IntS)(x, y))
            if isinstance(op, ast.Pow):
                if isinstance(a, int) and isinstance(b, int):
                    return a ** b
                if isinstance(a, int) and a == 2:
                    b2 = self.concretize_int(b, 140)
                    return 2 ** b2
        self.unsupported(f"operator {type(op).__name__}", node)

    @staticmethod
    def py_binop(op, a, b):
        import operator as o
        table = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
                 ast.Mod: o.mod, ast.Pow: o.pow, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitOr: o.or_,
                 ast.BitAnd: o.and_, ast.BitXor: o.xor}
        try:
            return table[type(op)](a, b)
        except Exception as e:
            raise PyRaise(type(e))

    def count_cmp(self, op, c, k):
        import operator as o
        f = {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge, ast.Eq: o.eq, ast.NotEq: o.ne}.get(type(op))
        if f is None or k > 2 or (k == 2 and not isinstance(op, (ast.GtE, ast.Lt))):
            return None
        B = z3.BoolVal
        return z3.simplify(z3.If(c.twice, B(f(2, k)), z3.If(c.member, B(f(1, k)), B(f(0, k)))))

    def compare(self, op, a, b, node=None):
        if isinstance(a, SCount) and isinstance(b, int) and not isinstance(b, bool):
            r = self.count_cmp(op, a, b)
            if r is not None:
                return r
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.member(a, b)
        if isinstance(op, ast.NotIn):
            return self.neg(self.member(a, b))
        a, b = self.narrow(a), self.narrow(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym) and not isinstance(a, LList):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError:
                raise PyRaise(TypeError)
        if not (isinstance(a, NUM) and isinstance(b, NUM)):
            if a is None or b is None:
                raise PyRaise(TypeError)
            self.unsupported(f"ordering of {a!r} and {b!r}", node)
        ka, x = self.num(a)
        kb, y = self.num(b)
        if ka != kb:
            x = z3.ToReal(x) if ka == "int" else x
            y = z3.ToReal(y) if kb == "int" else y
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def neg(self, f):
        return (not f) if isinstance(f, bool) else z3.Not(f)

    # ----------------------------------------------------- lists, membership
    def pieces(self, v):
        if isinstance(v, SStr):
            return v.pieces
        if isinstance(v, str):
            return (v,)
        if isinstance(v, App):
            return (v,)
        self.unsupported(f"string expected, got {v!r}")

    def fold_exists(self, fold, pred, string=False):
        """formula: some index whose case items satisfy pred(items)"""
        alts = []
        for c, items in fold.cases:
            p = pred(items)
            if p is False:
                continue
            alts.append((c, p))
        if not alts:
            return False
        if isinstance(fold, Cond):
            return z3.Or([z3.And(c, self.f(p)) for c, p in alts])
        j = z3.Int(f"q!{self.ctx.stamp()}")
        body = z3.Or([z3.And(subst(c, [(fold.idx, j)]), subst(self.f(p), [(fold.idx, j)])) for c, p in alts])
        return Exists([j], z3.And(j >= 0, j < fold.base.length, body))

    def nonempty(self, items):
        fs = []
        for it in items:
            if isinstance(it, E):
                return True
            if isinstance(it, Fold):
                if it.cases and all(self.nonempty(d) is True for _, d in it.cases) and getattr(it, "total", False):
                    fs.append(it.base.length > 0)
                else:
                    fs.append(self.f(self.fold_exists(it, lambda d: self.nonempty(d))))
            elif isinstance(it, PrevSeg):
                fs.append(self.prev_hole(it, "nonempty", None))
        return z3.Or(fs) if fs else False

    def prev_hole(self, prev, what, val):
        """undetermined fact about what an accumulator holds at the start of
        the iteration: a function of the loop indices it speaks about,
        replaced by its definition when the loop is summarised"""
        vs = list(self.ctx.idx)
        for x in index_consts(val):
            if not any(x.eq(y) for y in vs):
                vs.append(x)
        for (l2, w2, v2, c2) in self.mem_holes:
            if l2 == prev.loc and w2 == what and self.same_syntax(v2, val) and len(vs) == c2.num_args() and all(x.eq(y) for x, y in zip(vs, c2.children())):
                return c2
        self.ctx.nholes += 1
        n = f"hole_{what}!{self.ctx.nholes}"
        c = z3.Function(n, *([IntS] * len(vs)), BoolS)(*vs) if vs else z3.Const(n, BoolS)
        self.mem_holes.append((prev.loc, what, val, c))
        return c

    def member_items(self, v, items, key=False):
        fs = []
        for it in items:
            if isinstance(it, E):
                x = (it.v.args[0] if isinstance(it.v, App) else it.v[0]) if key else it.v
                fs.append(self.eq(v, x))
            elif isinstance(it, Fold):
                r = self.known_member(v, it) if self.registered and not key else None
                fs.append(self.fold_exists(it, lambda d: self.member_items(v, d, key)) if r is None else r)
            elif isinstance(it, PrevSeg):
                fs.append(self.prev_hole(it, "key" if key else "member", v))
            if fs and fs[-1] is True:
                return True
        fs = [f for f in fs if f is not False]
        return z3.Or(fs) if fs else False

    def known_member(self, v, fo):
        from . import invariant
        r = invariant.lookup(self, fo)
        t = invariant.term(self, v) if r is not None else None
        return None if t is None else r.mem(t)

    def member(self, v, cont):
        cont = self.narrow(cont)
        if isinstance(cont, SMap):
            from . import builtins as B
            return B.smap_has(self, cont, v)
        if isinstance(cont, LDict):
            return self.member_items(v, cont.items, True)
        if isinstance(cont, LList):
            return self.member_items(v, cont.items)
        if isinstance(cont, tuple):
            fs = [self.eq(v, x) for x in cont]
            if any(f is True for f in fs):
                return True
            fs = [f for f in fs if f is not False]
            return z3.Or(fs) if fs else False
        if isinstance(cont, SetDiff):
            return self.conj([self.member(v, cont.a), self.neg(self.member(v, cont.b))])
        if isinstance(cont, str) and isinstance(v, str):
            return v in cont
        if isinstance(cont, SStr) and isinstance(v, str):
            from . import builtins as B
            return B.str_pred(self, f"has:{v}", cont, lambda s: v in s, App("has", (cont, v)))
        if isinstance(cont, (SStr, str)) and isinstance(v, (str, SStr)):
            return self.app_bool("substr", App("substr", (v, cont)))
        if isinstance(cont, GenVal):
            return self.member(v, self.gen_list(cont))
        self.unsupported(f"membership in {cont!r}")

    def setdiff_nonempty(self, v):
        return self.exists_item(v.a.items, lambda x: self.neg(self.member(x, v.b)))

    def exists_item(self, items, pred):
        fs = []
        for it in items:
            if isinstance(it, E):
                fs.append(pred(it.v))
            elif isinstance(it, Fold):
                fs.append(self.fold_exists(it, lambda d: self.exists_item(d, pred)))
            else:
                self.unsupported("existential over accumulator")
        if any(f is True for f in fs):
            return True
        fs = [f for f in fs if f is not False]
        return z3.Or(fs) if fs else False

    def length(self, v):
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, GenVal):
            v = self.gen_list(v)
        if isinstance(v, SetDiff):
            c = self.app_int("card", v)
            self.ctx.assume((c > 0) == self.f(self.setdiff_nonempty(v)))
            return SInt(c)
        if isinstance(v, (LList, LDict)):
            if v.kind in ("set", "bag", "dict") and not all(isinstance(x, E) for x in v.items) or v.kind in ("set", "bag") and len(v.items) > 1:
                c = self.app_int("card", v)
                self.ctx.assume((c > 0) == self.f(self.nonempty(v.items)))
                return SInt(c)
            total = z3.IntVal(0)
            for it in v.items:
                total = total + self.item_len(it)
            return self.mknum("int", total)
        if isinstance(v, SStr):
            return SInt(self.app_int("strlen", v))
        self.unsupported(f"len of {v!r}")

    def app_int(self, name, app):
        e = self.encode(app)
        if e is not None:
            c = self.ctx.func(f"{name}:{e[0]}", *[t.sort() for t in e[1]], IntS)(*e[1]) if e[1] else z3.Int(f"{name}:{e[0]}")
            self.ctx.assume(c >= 0)
            return c
        for (n, a, c) in self.world.appints:
            if n == name and self.same_syntax(a, app):
                return c
        c = self.ctx.fresh("app_" + name, IntS)
        self.ctx.assume(c >= 0)
        self.world.appints.append((name, app, c))
        return c

    def item_len(self, it):
        if isinstance(it, E):
            return z3.IntVal(1)
        if isinstance(it, PrevSeg):
            self.unsupported("length of accumulator inside a loop")
        if isinstance(it, Cond):
            t = z3.IntVal(0)
            for c, d in it.cases:
                t = z3.If(c, z3.Sum([self.item_len(x) for x in d]) if d else z3.IntVal(0), t)
            return t
        if getattr(it, "total", False) and all(len(d) == 1 and isinstance(d[0], E) for _, d in it.cases):
            return it.base.length
        # number of elements of a filtered list
        key = self.fold_key(it)
        c = self.ctx.skolem("count", IntS, key)
        self.ctx.define(z3.And(c >= 0, self.f(self.nonempty((it,))) == (c > 0)))
        single = all(len(d) <= 1 and all(isinstance(x, E) for x in d) for _, d in it.cases)
        if single:
            self.ctx.define(c <= it.base.length)
            conds = [cc for cc, d in it.cases if d]
            P = lambda j: z3.Or([subst(cc, [(it.idx, j)]) for cc in conds])
            j = z3.Int(f"q!{self.ctx.stamp()}")
            k = z3.Int(f"q!{self.ctx.stamp()}")
            n = it.base.length
            w = self.ctx.skolem("two", IntS, key)
            w2 = self.ctx.skolem("twob", IntS, key)
            # c > 1 iff two different indices satisfy it
            self.ctx.define(z3.Implies(c > 1, z3.And(0 <= w, w < w2, w2 < n, P(w), P(w2))))
            self.ctx.define(z3.Implies(c <= 1, Forall([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n, P(j)), z3.Not(P(k))))))
        return c

    def fold_key(self, it):
        """formula that identifies which positions give how many elements"""
        def go(d):
            out = []
            for x in d:
                if isinstance(x, E):
                    out.append(z3.BoolVal(True))
                elif isinstance(x, Fold):
                    out.append(self.fold_key(x))
                else:
                    self.unsupported("length of accumulator inside a loop")
            return z3.Function("items", *([BoolS] * len(out)), BoolS)(*out) if out else z3.BoolVal(False)
        body = z3.Or([z3.And(c, go(d)) for c, d in it.cases])
        mark = z3.Int(f"cj!{depth_of(it)}")
        return z3.And(z3.Function("len", IntS, BoolS)(it.base.length), subst(body, [(it.idx, mark)]))

    def first(self, v, node=None):
        """v[0]: first element (forks on emptiness)"""
        items = list(v.items)
        for it in items:
            if isinstance(it, E):
                return it.v
            if isinstance(it, PrevSeg):
                self.unsupported("index into accumulator", node)
            ne = self.nonempty((it,))
            if self.ctx.decide(self.f(ne)):
                return self.pick_first(it)
        raise PyRaise(IndexError)

    def pick_first(self, fold):
        if isinstance(fold, Cond):
            return self.first(self.new_list(self.taken(fold)))
        n = fold.base.length
        cases = [(c, d) for c, d in fold.cases if d]
        P = lambda j: z3.Or([subst(self.f(self.conj([c, self.f(self.nonempty(d))])), [(fold.idx, j)]) for c, d in cases])
        if getattr(fold, "total", False) and all(any(isinstance(x, E) for x in d) for _, d in fold.cases):
            k = z3.IntVal(0)
        else:
            k = self.ctx.skolem("first", IntS, z3.And(n > CANON, P(CANON)))
            self.ctx.define(z3.Implies(self.f(self.nonempty((fold,))), z3.And(0 <= k, k < n, P(k))))
            self.ctx.define(forall(self.ctx, n, lambda j: z3.Implies(j < k, z3.Not(P(j)))))
            self.ctx.define(z3.Implies(z3.Not(self.f(self.nonempty((fold,)))), k == -1))
        conds = [subst(c, [(fold.idx, k)]) for c, d in cases]
        sel = self.ctx.choose(conds) if len(conds) > 1 else 0
        if len(conds) == 1:
            self.ctx.assume(conds[0])
        items = subst(cases[sel][1], [(fold.idx, k)])
        if len(items) == 1 and isinstance(items[0], E):
            return items[0].v
        return self.first(self.new_list(items))

    def index(self, v, i, node=None):
        if isinstance(v, Havoc):
            return v
        if isinstance(v, LDict) and v.items and isinstance(v.items[-1], E) and isinstance(v.items[-1].v, App) and v.items[-1].v.name in ("set-entry", "add-entry", "list-entry"):
            if self.same_syntax(v.items[-1].v.args[0], i) or self.eq(v.items[-1].v.args[0], i) is True:
                return DictSlot(v, i)
        if isinstance(v, SMap):
            from . import builtins as B
            ok, x = B.smap_get(self, v, i)
            if not ok:
                raise PyRaise(KeyError)
            return x
        if isinstance(v, LDict):
            ok, x = self.dict_get(v, i)
            if not ok:
                raise PyRaise(KeyError)
            return x
        if isinstance(v, CounterVal):
            return self.count_of(v.lst, i)
        if isinstance(v, (tuple, str)) and isinstance(i, int):
            try:
                return v[i]
            except IndexError:
                raise PyRaise(IndexError)
        i = self.narrow(i)
        if isinstance(v, LList):
            if v.kind in ("set", "bag"):
                if v.kind == "bag" and isinstance(i, int) and i == 0 and all(isinstance(x, E) for x in v.items) and len(v.items) == 1:
                    return v.items[0].v
                # an element of an unordered collection: any member
                return self.any_member(v)
            if isinstance(i, int):
                if all(isinstance(x, E) for x in v.items):
                    try:
                        return v.items[i].v
                    except IndexError:
                        raise PyRaise(IndexError)
                if i == 0:
                    return self.first(v, node)
                if i > 0 and len(v.items) > i and all(isinstance(x, E) for x in v.items[: i + 1]):
                    return v.items[i].v
                if i == -1 and isinstance(v.items[-1], E):
                    return v.items[-1].v
            if len(v.items) == 1 and isinstance(v.items[0], Fold) and self.is_map(v.items[0]):
                fo = v.items[0]
                kind, t = self.num(i)
                n = fo.base.length
                self.raise_if(z3.Not(z3.And(t < n, t >= -n)), IndexError)
                if not self.ctx.decide(t >= 0):
                    t = t + n
                return self.map_elem(fo, t)
        self.unsupported(f"index {i!r} of {v!r}", node)

    def any_member(self, v):
        self.raise_if(z3.Not(self.f(self.nonempty(v.items))), IndexError)
        return SStr((App("someof", (LList(v.items, 0, v.kind),)),))

    def is_map(self, fo):
        return getattr(fo, "total", False) and all(len(d) == 1 and isinstance(d[0], E) for _, d in fo.cases)

    def map_elem(self, fo, t):
        if len(fo.cases) == 1:
            if getattr(fo, "ident", False):
                return self.ctx.base_elem(fo.base, t)
            self.ctx.assume(subst(fo.cases[0][0], [(fo.idx, t)]))
            return subst(fo.cases[0][1], [(fo.idx, t)])[0].v
        sel = self.ctx.choose([subst(c, [(fo.idx, t)]) for c, _ in fo.cases])
        return subst(fo.cases[sel][1], [(fo.idx, t)])[0].v

    def count_of(self, lst, x):
        """number of occurrences of x in lst: 0, 1 or at least 2"""
        if all(isinstance(i, E) for i in lst.items):
            fs = [z3.If(self.f(self.eq(x, i.v)), 1, 0) for i in lst.items]
            return self.mknum("int", z3.Sum(fs) if fs else z3.IntVal(0))
        if len(lst.items) == 1 and isinstance(lst.items[0], Fold) and self.is_map(lst.items[0]):
            fo = lst.items[0]
            n = fo.base.length

            def hit(j):
                return z3.Or([z3.And(subst(cc, [(fo.idx, j)]), self.f(self.eq(x, subst(d[0].v, [(fo.idx, j)])))) for cc, d in fo.cases])
            twice = exists(self.ctx, n, lambda k: z3.And(hit(k), exists(self.ctx, k, hit)))
            e = self.ctx.fresh("occ", IntS)
            r = SCount(z3.If(twice, 2 + z3.If(e > 0, e, 0), z3.If(self.f(self.member(x, lst)), z3.IntVal(1), z3.IntVal(0))))
            r.twice, r.member = twice, self.f(self.member(x, lst))
            return r
        self.unsupported("Counter of this list")

    def dict_get(self, d, k):
        k = self.narrow(k) if not isinstance(k, tuple) else k
        if log_entries(d.items):
            self.unsupported("lookup in a dict filled through setdefault in a loop")
        for it in reversed(d.items):
            if isinstance(it, E):
                if self.ctx.decide(self.f(self.eq(k, it.v[0]))):
                    return True, it.v[1]
            elif isinstance(it, Fold):
                hit = self.fold_exists(it, lambda dd: self.member_items(k, dd, True))
                if self.ctx.decide(self.f(hit)):
                    return True, self.pick_last(it, k)
            else:
                c = self.prev_hole(it, "key", k)
                if self.ctx.decide(c):
                    return True, Havoc("value of an accumulator dict")
        return False, None

    def last_index(self, n, H):
        """last j < n with H(j) (there is one on this path)"""
        k = self.ctx.skolem("last", IntS, z3.And(n > CANON, H(CANON)))
        some = exists(self.ctx, n, H)
        self.ctx.define(z3.Implies(some, z3.And(0 <= k, k < n, H(k))))
        self.ctx.define(z3.Implies(some, forall(self.ctx, n, lambda j: z3.Implies(j > k, z3.Not(H(j))))))
        return k

    def pick_last(self, fo, key):
        n = fo.base.length
        H = lambda j: z3.Or([z3.And(subst(c, [(fo.idx, j)]), self.f(self.member_items(key, subst(d, [(fo.idx, j)]), True))) for c, d in fo.cases])
        t = self.last_index(n, H)
        cases = [(c, d) for c, d in fo.cases if d]
        if len(cases) > 1:
            sel = self.ctx.choose([z3.And(subst(c, [(fo.idx, t)]), self.f(self.member_items(key, subst(d, [(fo.idx, t)]), True))) for c, d in cases])
        else:
            sel = 0
            self.ctx.assume(subst(cases[0][0], [(fo.idx, t)]))
        items = subst(cases[sel][1], [(fo.idx, t)])
        ok, v = self.dict_get(LDict(items), key)
        return v

    # ------------------------------------------------------------------ heap
    def classes_of(self, v):
        return v.classes

    def field_info(self, v, attr):
        return self.world.field_info(v.classes, attr)

    def read_field(self, v, attr):
        owner, field, typ = self.world.field_info(v.classes, attr)
        val = self.read_loc(owner, field, typ, v)
        return val

    def read_loc(self, owner, field, typ, v):
        for it in reversed(self.heap.items):
            if isinstance(it, E):
                w = it.v
                if w[0] in "wa" and w[1] == owner and w[2] == field:
                    if w[3].t.eq(v.t) or self.ctx.decide(w[3].t == v.t):
                        if w[0] == "a":
                            self.unsupported("read of a list extended in a loop")
                        return self.bind_home(w[4], owner, field, v)
            elif isinstance(it, Fold):
                hits = lambda d: self.heap_hit(d, owner, field, v)
                f = self.fold_exists(it, hits)
                if f is not False and self.ctx.decide(self.f(f)):
                    return self.bulk_value(it, owner, field, v)
            elif isinstance(it, PrevSeg):
                self.prev_reads.append((it.loc, owner, field, v, list(self.ctx.idx)))
        if typ[0] in ("list", "optlist"):
            if typ[0] == "optlist":
                isn = self.ctx.func(f"none!{owner}.{field}", IntS, BoolS)(v.t)
                if self.ctx.decide(isn):
                    return None
            key = (owner, field, v.t.get_id())
            self.world.keep.append(v.t)
            b = self.ctx.fn_base(f"{owner}.{field}", (v.t,), typ[1])
            items = self.ident(b)
            return self.handle(LList(items, 0, "list", (owner, field, v)))
        return self.ctx.mk(typ, f"{owner}.{field}", (v.t,))

    def bind_home(self, val, owner, field, v):
        if isinstance(val, LList):
            return self.handle(LList(val.items, val.stamp, val.kind, (owner, field, v)))
        return val

    def handle(self, l):
        self.handles.setdefault(l.home[:2], []).append(l)
        return l

    def stale(self, owner, field, but=None):
        """other handles on lists of this field may show old contents"""
        for h in self.handles.get((owner, field), ()):
            if h is not but and h.items != (STALE,):
                self.ctx.setloc(("items", h, None), (STALE,))

    def ident(self, b):
        return self.ctx.ident(b)

    def heap_hit(self, items, owner, field, v):
        fs = []
        for it in items:
            if isinstance(it, E):
                w = it.v
                if w[0] in "wa" and w[1] == owner and w[2] == field:
                    fs.append(w[3].t == v.t)
            elif isinstance(it, Fold):
                fs.append(self.fold_exists(it, lambda d: self.heap_hit(d, owner, field, v)))
        fs = [f for f in fs if f is not False]
        return z3.Or(fs) if fs else False

    def bulk_value(self, fo, owner, field, v):
        n = fo.base.length
        H = lambda j: z3.Or([z3.And(subst(c, [(fo.idx, j)]), self.f(self.heap_hit(subst(d, [(fo.idx, j)]), owner, field, v))) for c, d in fo.cases])
        k = self.last_index(n, H)
        opts = [(c, d) for c, d in fo.cases if self.heap_hit(d, owner, field, v) is not False]
        sel = self.ctx.choose([z3.And(subst(c, [(fo.idx, k)]), self.f(self.heap_hit(subst(d, [(fo.idx, k)]), owner, field, v))) for c, d in opts]) if len(opts) > 1 else 0
        if len(opts) == 1:
            self.ctx.assume(subst(opts[0][0], [(fo.idx, k)]))
        d = subst(opts[sel][1], [(fo.idx, k)])
        for it in reversed(d):
            if isinstance(it, E):
                w = it.v
                if w[0] in "wa" and w[1] == owner and w[2] == field and self.ctx.decide(w[3].t == v.t):
                    if w[0] == "a":
                        self.unsupported("read of a list extended in a loop")
                    return self.bind_home(w[4], owner, field, v)
            else:
                f = self.f(self.heap_hit((it,), owner, field, v))
                if self.ctx.decide(f):
                    return self.bulk_value(it, owner, field, v)
        raise Infeasible()

    def write_field(self, v, attr, val):
        owner, field, typ = self.world.field_info(v.classes, attr)
        self.log_write(("w", owner, field, v, self.freeze(val)))
        self.stale(owner, field)

    def log_write(self, w):
        self.ctx.setloc(("items", self.heap, None), self.heap.items + (E(w),))

    def freeze(self, val):
        if isinstance(val, LList) and val.home is not None:
            return LList(val.items, val.stamp, val.kind)
        return val

    def cur_items(self, v):
        return v.items

    def set_items(self, v, items):
        """mutate a list/dict/set in place"""
        if v.home is not None:
            if v.home[0] == "frozen":
                self.unsupported("change of a list made by an earlier iteration")
            if v.home[0] == "global":
                self.log_write(("g", v.home[1], LList(items)))
            else:
                owner, field, ref = v.home
                self.log_write(("w", owner, field, ref, LList(items)))
                self.stale(owner, field, v)
        self.ctx.setloc(("items", v, None), tuple(items))

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, node=None):
        if isinstance(v, Poison):
            self.unsupported(f"read of {v.why}", node)
        if isinstance(v, SVal):
            v = self.narrow(v)
        if v is None:
            raise PyRaise(AttributeError)
        if isinstance(v, SRef):
            self.raise_if(v.t == 0, AttributeError)
            return self.ref_attr(v, name, node)
        if isinstance(v, Obj):
            if isinstance(v.cls, type):
                name = self.world.canon((v.cls,), name)
            if name in v.fields:
                return v.fields[name]
            if isinstance(v.cls, type) and issubclass(v.cls, BaseException) and name == "args":
                return Havoc("arguments of an exception")
            if isinstance(v.cls, type):
                return self.class_attr(v.cls, name, v, node)
            if v.cls == "file" and name == "read":
                return Builtin("file.read", v)
            if v.cls == "file" and name in ("write", "writelines", "close"):
                return Builtin("file." + name, v)
            raise PyRaise(AttributeError)
        if isinstance(v, SuperVal):
            for c in v.cls.__mro__[v.cls.__mro__.index(v.after) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], v.obj, v.cls, c, node)
            if name == "__init__":
                return Builtin("noop")
            raise PyRaise(AttributeError)
        if isinstance(v, SEnum):
            v = self.concretize_enum(v)
            if v is None:
                raise PyRaise(AttributeError)
        if isinstance(v, enum.Enum):
            if name in ("value", "name"):
                return getattr(v, name)
            if isinstance(v, str) and hasattr(str, name):
                return Builtin("str." + name, v.value)
        if isinstance(v, DictSlot):
            return Builtin("slot." + name, v)
        if isinstance(v, (str, SStr)):
            if not hasattr(str, name):
                raise PyRaise(AttributeError)
            return Builtin("str." + name, v)
        if isinstance(v, LList):
            return Builtin(("set." if v.kind == "set" else "list.") + name, v)
        if isinstance(v, (LDict, SMap)):
            return Builtin("dict." + name, v)
        if isinstance(v, (SInt, int)) and name == "bit_length":
            return Builtin("int.bit_length", v)
        if isinstance(v, type):
            return self.class_attr(v, name, None, node)
        if isinstance(v, types.ModuleType):
            x = getattr(v, name)
            if isinstance(x, types.ModuleType) or v.__name__.startswith("asn1_parser"):
                return self.wrap(x, f"{v.__name__}.{name}")
            if isinstance(x, (str, int, float)) or isinstance(x, type) and v.__name__ == "cgen" or isinstance(x, (type, types.FunctionType)) and x in self.world.externals:
                return x
            return Builtin(f"{v.__name__}.{name}")
        if isinstance(v, App):
            return Builtin("app." + name, v)
        if isinstance(v, Builtin):
            return Builtin(v.name + "." + name, v.self_arg)
        if isinstance(v, (int, float, bool, SInt, SReal, SBool)):
            raise PyRaise(AttributeError)
        if isinstance(v, LoggerVal):
            return Builtin("noop")
        if isinstance(v, GenVal):
            self.unsupported("attribute of generator", node)
        self.unsupported(f"attribute {name} of {v!r}", node)

    def ref_attr(self, v, name, node):
        # a data field of the model classes, otherwise a method / property:
        # dispatch on the class
        name = self.world.canon(v.classes, name)
        groups = {}
        for c in v.classes:
            fi = self.world._lookup(c, name)
            if fi is not None:
                groups.setdefault(("f", fi[0]), (None, []))[1].append(c)
                continue
            try:
                impl = inspect.getattr_static(c, name)
            except AttributeError:
                impl = None
            groups.setdefault(("m", id(impl)), (impl, []))[1].append(c)
        gs = list(groups.items())
        if len(gs) > 1:
            opts = [z3.Or([self.ctx.class_tag(v.t) == self.world.tag(c) for c in cs]) for _, (_, cs) in gs]
            k = self.ctx.choose(opts)
        else:
            k = 0
        (kind, _), (impl, cs) = gs[k]
        sub = SRef(v.t, cs)
        if kind == "f":
            return self.read_field(sub, name)
        if name == "__class__":
            return self.ref_class(sub)
        if impl is None:
            if any(self.world.sets(c, name) for c in cs):
                self.unsupported(f"attribute {name} of {cs[0].__name__}, which the contracts do not describe", node)
            raise PyRaise(AttributeError)
        return self.bind(impl, sub, cs[0], cs[0], node, name)

    def ref_class(self, v):
        cs = v.classes
        k = self.ctx.choose([self.ctx.class_tag(v.t) == self.world.tag(c) for c in cs]) if len(cs) > 1 else 0
        return cs[k]

    def class_attr(self, cls, name, obj, node):
        ca = ("cls", cls.__name__, name)
        for c in cls.__mro__:
            k = f"{c.__name__}.{name}"
            if k in self.classattrs.fields:
                return self.classattrs.fields[k]
            if name in c.__dict__:
                break
        try:
            impl = inspect.getattr_static(cls, name)
        except AttributeError:
            if obj is not None and name in ("__class__",):
                return cls
            if self.world.sets(cls, name):
                self.unsupported(f"attribute {name} of {cls.__name__}, which the contracts do not describe", node)
            raise PyRaise(AttributeError)
        if name == "__name__":
            return cls.__name__
        return self.bind(impl, obj, cls, cls, node, name)

    def bind(self, impl, obj, cls, owner, node, name="?"):
        if isinstance(impl, staticmethod):
            return FuncVal(impl.__func__)
        if isinstance(impl, classmethod):
            return FuncVal(impl.__func__, cls)
        if isinstance(impl, property):
            return self.call(FuncVal(impl.fget, obj), [], {}, node)
        if isinstance(impl, types.FunctionType):
            return FuncVal(impl, obj) if obj is not None else FuncVal(impl)
        if isinstance(impl, enum.Enum) or isinstance(impl, (str, int, float, bool, type)) or impl is None:
            return impl
        if isinstance(impl, (list, dict, tuple, set, frozenset)):
            return self.wrap(impl, f"{owner.__name__}.{name}")
        if type(impl).__name__ == "Logger":
            return LoggerVal()
        if type(impl).__name__ == "member" and hasattr(impl, "value"):
            return getattr(cls, name)
        if type(impl).__name__ in ("wrapper_descriptor", "method_descriptor", "builtin_function_or_method"):
            return Builtin(f"{type(impl).__name__}.{name}", obj)
        self.unsupported(f"class attribute {name} of kind {type(impl).__name__}", node)

    # ----------------------------------------------------------------- calls
    def call(self, f, args, kwargs, node=None):
        from . import builtins as B
        if isinstance(f, FuncVal):
            if f.self_arg is not None:
                args = [f.self_arg] + list(args)
            return self.call_function(f.fn, args, kwargs, node)
        if isinstance(f, types.FunctionType):
            if f in self.world.externals:
                return self.inline(self.world.externals[f], args, kwargs, node)
            if B.is_spec_builtin(f):
                return B.call_spec_builtin(self, f, args, kwargs, node)
            return self.call_function(f, args, kwargs, node)
        if isinstance(f, Builtin):
            return B.call_builtin(self, f, args, kwargs, node)
        if isinstance(f, LambdaVal):
            fr = Frame(f.frame.fn, f.frame.glob, self.ctx.stamp(), f.frame.owner)
            fr.vars = dict(f.frame.vars)
            for p, a in zip(f.node.args.args, args):
                fr.vars[p.arg] = a
            return self.eval(f.node.body, fr)
        if isinstance(f, type):
            return self.construct(f, args, kwargs, node)
        if callable(f):
            return B.call_builtin(self, Builtin(getattr(f, "__module__", "") + "." + getattr(f, "__qualname__", str(f))), args, kwargs, node, pyfn=f)
        self.unsupported(f"call of {f!r}", node)

    def construct(self, cls, args, kwargs, node):
        from . import builtins as B
        cls = self.world.externals.get(cls, cls)
        if cls in (int, str, bool, float, list, set, dict, tuple, enumerate, range, bytes, frozenset, type, zip, reversed, super, map, filter):
            return B.call_builtin(self, Builtin(cls.__name__), args, kwargs, node)
        if issubclass(cls, enum.Enum):
            self.unsupported("enum construction", node)
        if issubclass(cls, BaseException):
            return Obj(cls, self.ctx.stamp())
        if self.world.is_repo(cls):
            o = Obj(cls, self.ctx.stamp())
            init = inspect.getattr_static(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call_function(init, [o] + list(args), kwargs, node)
            return o
        return B.external_class(self, cls, args, kwargs, node)

    def bind_args(self, fn, args, kwargs, node=None):
        info = self.world.func_ast(fn)
        a = info.node.args
        if a.posonlyargs:
            self.unsupported("positional-only parameters", node)
        names = [p.arg for p in a.args]
        vars = {}
        args = list(args)
        if args and isinstance(args[-1], StarArgs):
            if not a.vararg or len(args) - 1 < len(names):
                self.unsupported("star argument", node)
            rest = tuple(E(x) for x in args[len(names):-1]) + args[-1].items
            vars[a.vararg.arg] = LList(rest, self.ctx.stamp(), "list")
            args = args[: len(names)]
        elif len(args) > len(names):
            if a.vararg:
                vars[a.vararg.arg] = tuple(args[len(names):])
                args = args[: len(names)]
            else:
                raise PyRaise(TypeError)
        elif a.vararg:
            vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars[n] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in vars:
                    raise PyRaise(TypeError)
                vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(TypeError)
        if a.kwarg:
            self.unsupported("**kwargs", node)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        for n in names + kwonly:
            if n not in vars:
                if n not in defaults:
                    raise PyRaise(TypeError)
                d = defaults[n]
                try:
                    # default values are evaluated once, at definition
                    pos = fn.__defaults__ or ()
                    idx = n in names and names.index(n) - (len(names) - len(pos))
                    val = pos[idx] if n in names else (fn.__kwdefaults__ or {})[n]
                except Exception:
                    self.unsupported("default value", node)
                vars[n] = self.wrap(val, f"default {fn.__qualname__}.{n}")
        return info, vars

    def call_function(self, fn, args, kwargs, node=None):
        fn = getattr(fn, "__func__", fn)
        if getattr(fn, "__wrapped__", None) is not None:
            self.unsupported("decorated function", node)
        c = self.world.contract_for(fn)
        if c is not None and not (self.verifying is not None and self.verifying.fn is c.fn and self.verifying_depth == 0):
            return self.world.apply_contract(self, c, fn, args, kwargs, node)
        if self.world.is_log(fn):
            return None
        return self.inline(fn, args, kwargs, node)

    def inline(self, fn, args, kwargs, node=None):
        info, vars = self.bind_args(fn, args, kwargs, node)
        if self.depth > 60:
            self.unsupported(f"recursion without contract in {fn.__qualname__}", node)
        if self.world.is_repo(fn):
            self.inlined.add(f"{fn.__module__}:{fn.__qualname__}")
        fr = Frame(fn, fn.__globals__, self.ctx.stamp(), info.owner)
        fr.vars = vars
        self.depth += 1
        old = self.verifying_depth
        self.verifying_depth += 1
        try:
            self.exec_block(info.node.body, fr)
            return None
        except ReturnSig as r:
            return r.value
        finally:
            self.depth -= 1
            self.verifying_depth = old

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unsupported(f"statement {type(s).__name__}", s)
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if self.world.is_log_call(s.value):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Global(self, s, fr):
        self.unsupported("global statement", s)

    def x_Import(self, s, fr):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    mod = getattr(mod, part)
            self.assign_name(fr, a.asname or a.name.split(".")[0], mod)

    def x_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            self.assign_name(fr, a.asname or a.name, getattr(m, a.name))

    def assign_name(self, fr, name, v):
        self.ctx.setloc(("var", fr, name), v)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        cur = self.eval(_as_load(s.target), fr)
        v = self.eval(s.value, fr)
        if isinstance(s.op, ast.Add) and isinstance(cur, LList):
            self.set_items(cur, cur.items + self.items_of(v))
            return
        if isinstance(s.op, ast.BitOr) and isinstance(cur, LList) and cur.kind == "set" and isinstance(v, LList) and v.kind == "set":
            self.set_items(cur, cur.items + v.items)
            return
        self.assign(s.target, self.binop(s.op, cur, v, s), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (LList,)) and all(isinstance(i, E) for i in v.items):
                v = tuple(i.v for i in v.items)
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                self.unsupported("unpacking", t)
            for e, x in zip(t.elts, v):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            o = self.narrow(o)
            if isinstance(o, Obj):
                nm = self.world.canon((o.cls,), t.attr) if isinstance(o.cls, type) else t.attr
                if o.frozen:
                    self.unsupported("change of an object made by an earlier iteration")
                self.ctx.setloc(("fld", o, nm), v)
            elif isinstance(o, SRef):
                self.raise_if(o.t == 0, AttributeError)
                self.write_field(o, self.world.canon(o.classes, t.attr), v)
            elif isinstance(o, type):
                self.ctx.setloc(("fld", self.classattrs, f"{o.__name__}.{t.attr}"), v)
            elif o is None:
                raise PyRaise(AttributeError)
            else:
                self.unsupported(f"attribute assignment on {o!r}", t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            if isinstance(o, LDict):
                items = o.items
                if all(isinstance(i, E) for i in items):
                    # overwrite an existing constant key in place (keeps order)
                    for n, i in enumerate(items):
                        r = self.eq(i.v[0], k)
                        if r is True:
                            self.set_items(o, items[:n] + (E((i.v[0], v)),) + items[n + 1:])
                            return
                self.set_items(o, items + (E((k, v)),))
            elif isinstance(o, LList) and isinstance(k, int) and all(isinstance(i, E) for i in o.items):
                if not -len(o.items) <= k < len(o.items):
                    raise PyRaise(IndexError)
                items = list(o.items)
                items[k] = E(v)
                self.set_items(o, tuple(items))
            elif isinstance(o, LList) and o.kind == "list" and isinstance(k, (int, SInt)):
                from .invariant import store
                store(self, o, k, v, t)
            else:
                self.unsupported("subscript assignment", t)
        else:
            self.unsupported("assignment target", t)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ctx.setloc(("var", fr, t.id), UNBOUND)
            else:
                self.unsupported("del", s)

    def new_entry(self, s, fr):
        """if k not in d: d[k] = set()   is   d.setdefault(k, set())"""
        t = s.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Compare) and isinstance(t.operand.ops[0], ast.In):
            t = t.operand
        elif not (isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn)):
            return False
        if len(t.ops) != 1 or len(s.body) != 1 or s.orelse or not isinstance(s.body[0], ast.Assign) or len(s.body[0].targets) != 1:
            return False
        a, v = s.body[0].targets[0], s.body[0].value
        if not (isinstance(a, ast.Subscript) and dotted(a.value) and ast.dump(a.value) == ast.dump(t.comparators[0])
                and isinstance(a.slice, (ast.Name, ast.Constant)) and ast.dump(a.slice) == ast.dump(t.left)
                and (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "list") and not v.args and not v.keywords or isinstance(v, ast.List) and not v.elts)):
            return False
        name = "set-entry" if isinstance(v, ast.Call) and v.func.id == "set" else "list-entry"
        d = self.eval(a.value, fr)
        if not isinstance(d, LDict) or all(isinstance(i, E) and isinstance(i.v, tuple) for i in d.items):
            return False
        self.set_items(d, d.items + (E(App(name, (self.eval(a.slice, fr),))),))
        return True

    def x_If(self, s, fr):
        if self.new_entry(s, fr):
            return
        if self.merge_ifs and self.can_merge(s) and self.merge_if(s, fr):
            return
        self.plain_if(s, fr)

    def can_merge(self, s):
        r = self.world.mergeable.get(id(s))
        if r is None:
            r = not any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Try, ast.With, ast.For, ast.While)) for n in ast.walk(s))
            self.world.mergeable[id(s)] = r
            self.world.keep_nodes.append(s)
        return r

    def merge_if(self, s, fr):
        """runs all paths through the statement and joins them: what they
        append becomes a conditional part, scalars an if-then-else"""
        ctx = self.ctx
        start = ctx.stamp()

        def capture(mark):
            mut = {}
            for loc, _ in ctx.trail[mark:]:
                kind, cont, name = loc
                if cont.stamp < start:
                    mut[(kind, id(cont), name)] = loc
            return {k: (loc, ctx.getloc(loc)) for k, loc in mut.items()}
        try:
            paths = ctx.explore(lambda: self.plain_if(s, fr), capture=capture, limit=60, side=True, start=start)
        except Unsupported:
            return False
        if len(paths) < 2:
            return False
        P = []
        for conds, outcome, cap in paths:
            bs = [x for kd, x in conds if kd == "branch"]
            P.append((z3.And(bs) if len(bs) != 1 else bs[0], outcome, {k: v for k, v in cap.items()}, conds))
        if any(o[0] not in ("next", "raise") for _, o, _, _ in P):
            return False
        N = [p for p in P if p[1][0] == "next"]
        if not N:
            return False
        locs = {}
        for _, _, cap, _ in N:
            for k, (loc, _) in cap.items():
                locs[k] = loc
        merged = []
        for k, loc in locs.items():
            if loc[1] is self.heap or loc[1] is self.effects or loc[1] is self.classattrs:
                self.world.mergeable[id(s)] = False
                return False
            pre = ctx.getloc(loc)
            vals = [(c, cap[k][1] if k in cap else pre) for c, _, cap, _ in N]
            v = self.merge_values(loc, pre, vals, start)
            if v is None:
                self.world.mergeable[id(s)] = False
                return False
            merged.append((loc, v[0]))
        # raising paths stay apart
        R = [p for p in P if p[1][0] == "raise"]
        if R and (self.in_try and any(cap for _, _, cap, _ in R)):
            return False
        if len(R) > 1 and not self.in_try:      # exceptions are not told apart
            R = [(z3.Or([c for c, _, _, _ in R]),) + R[0][1:]]
        pick = len(R)
        if R and not self.in_try:
            self.raise_if(R[0][0], R[0][1][1].cls, R[0][1][1].where)
        elif R:
            pick = ctx.choose([c for c, _, _, _ in R] + [z3.Or([c for c, _, _, _ in N]) if len(N) > 1 else N[0][0]])
        if pick < len(R):
            raise PyRaise(R[pick][1][1].cls, R[pick][1][1].where)
        for c, _, _, conds in N:
            self.assume_path(conds)
        for loc, v in merged:
            ctx.setloc(loc, v)
        return True

    def plain_value(self, v, start):
        """made of terms only (nothing the joined paths could still change)"""
        if isinstance(v, (LList, LDict)):
            return v.stamp < start and all(self.plain_value(x, start) for x in v.items)
        if isinstance(v, Obj):
            return v.stamp < start
        if isinstance(v, E):
            return self.plain_value(v.v, start)
        if isinstance(v, tuple):
            return all(self.plain_value(x, start) for x in v)
        if isinstance(v, App):
            return all(self.plain_value(x, start) for x in v.args)
        if isinstance(v, SStr):
            return all(self.plain_value(x, start) for x in v.pieces)
        if isinstance(v, Fold):
            return all(self.plain_value(d, start) for _, d in v.cases)
        return not isinstance(v, (Frame, GenVal, LambdaVal))

    def merge_values(self, loc, pre, vals, start):
        """(value,) or None when the values cannot be joined"""
        if all(self.same_value(v, vals[0][1]) for _, v in vals[1:]):
            return (vals[0][1],)
        if any(v is UNBOUND or isinstance(v, Poison) for _, v in vals):
            return (Poison("variable of one branch"),) if loc[0] == "var" else None
        if not all(self.plain_value(v, start) for _, v in vals):
            return None

        def ite(f):
            t = f(vals[-1][1])
            for c, v in reversed(vals[:-1]):
                t = z3.If(c, f(v), t)
            return z3.simplify(t)
        if loc[0] == "items":
            return (self.merge_seq([(c, v) for c, v in vals]),)
        vs = [v for _, v in vals]
        if all(isinstance(v, (bool, SBool)) for v in vs):
            return (SBool(ite(self.as_formula)),)
        if all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in vs):
            return (SInt(ite(lambda v: self.num(v)[1])),)
        if all(isinstance(v, (str, SStr)) and not isinstance(v, enum.Enum) for v in vs):
            ps = [(c, SStr(self.pieces(v)).pieces) for c, v in vals]
            if all(len(p) == 1 and isinstance(p[0], (str, z3.ExprRef)) for _, p in ps):
                return (SStr((ite(lambda v: (lambda x: self.ctx.lit(x) if isinstance(x, str) else x)(SStr(self.pieces(v)).pieces[0])),)),)
            return (SStr(self.merge_seq(ps)),)
        if all(isinstance(v, SRef) for v in vs):
            cl = []
            for v in vs:
                cl.extend(c for c in v.classes if c not in cl)
            return (SRef(ite(lambda v: v.t), cl),)
        us = [self.union(v) for v in vs]
        if all(u is not None for u in us):
            ts = []
            for u in us:
                ts.extend(t for t in u.types if t not in ts)
            t = us[-1].t
            for (c, _), u in list(zip(vals, us))[-2::-1]:
                t = z3.If(c, u.t, t)
            return (SVal(z3.simplify(t), ts),)
        return None

    def union(self, v):
        """the same value, of the union sort"""
        if isinstance(v, SVal):
            return v
        if v is None:
            return SVal(Val.none, [("none",)])
        if isinstance(v, (bool, SBool)):
            return SVal(Val.bool(self.as_formula(v)), [("bool",)])
        if isinstance(v, (int, SInt)):
            return SVal(Val.int(self.num(v)[1]), [("int",)])
        if isinstance(v, str) and not isinstance(v, enum.Enum):
            return SVal(Val.str(self.ctx.lit(v)), [("str",)])
        if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], z3.ExprRef):
            return SVal(Val.str(v.pieces[0]), [("str",)])
        return None

    def merge_eval(self, run):
        """value of an expression with its paths joined, or NOTHING"""
        ctx = self.ctx
        start = ctx.stamp()
        wrote = []

        def capture(mark):
            wrote.extend(loc for loc, _ in ctx.trail[mark:] if loc[1].stamp < start)
            return {}
        try:
            paths = ctx.explore(run, capture=capture, limit=20, side=True, start=start)
        except Unsupported:
            return NOTHING
        if wrote or len(paths) < 2 or any(o[0] not in ("next", "raise") for _, o, _ in paths):
            return NOTHING
        R = [p for p in paths if p[1][0] == "raise"]
        N = [p for p in paths if p[1][0] == "next"]
        if not N or (R and self.in_try):
            return NOTHING
        conds = lambda p: self.f(self.conj([x for kd, x in p[0] if kd == "branch"]))
        v = self.merge_values(("value", None, None), None, [(conds(p), p[1][1]) for p in N], start)
        if v is None:
            return NOTHING
        if R:
            self.raise_if(z3.Or([conds(p) for p in R]), R[0][1][1].cls, R[0][1][1].where)
        for p in N:
            self.assume_path(p[0])
        return v[0]

    def assume_path(self, conds):
        pre = []
        for kd, x in conds:
            if kd == "branch":
                pre.append(x)
            elif kd == "def":
                self.ctx.define(x)
            else:
                self.ctx.assume(z3.Implies(z3.And(pre), x) if pre else x)

    def merge_seq(self, vals):
        """common beginning, then the rest of each case"""
        pre = []
        seqs = [list(v) for _, v in vals]
        while all(seqs) and all(self.same_value(q[0], seqs[0][0]) for q in seqs[1:]):
            pre.append(seqs[0][0])
            for q in seqs:
                q.pop(0)
        cases = []
        for (c, _), q in zip(vals, seqs):
            for m in cases:
                if len(m[1]) == len(q) and all(self.same_value(x, y) for x, y in zip(m[1], q)):
                    m[0].append(c)
                    break
            else:
                cases.append(([c], q))
        cases = [(z3.simplify(z3.Or(cs)) if len(cs) > 1 else cs[0], tuple(q)) for cs, q in cases]
        return tuple(pre) + (Cond(self.ctx, cases),)

    def plain_if(self, s, fr):
        if self.branch(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Return(self, s, fr):
        raise ReturnSig(None if s.value is None else self.eval(s.value, fr))

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_Assert(self, s, fr):
        if not self.branch(self.eval(s.test, fr)):
            raise PyRaise(AssertionError, s)

    def x_Raise(self, s, fr):
        if s.exc is None:
            self.unsupported("bare raise", s)
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        c = self.eval(e, fr)
        if isinstance(c, Obj):
            c = c.cls
        if not (isinstance(c, type) and issubclass(c, BaseException)):
            self.unsupported("raise", s)
        raise PyRaise(c, s)

    def x_Try(self, s, fr):
        if s.finalbody:
            self.unsupported("finally", s)
        self.in_try += 1
        try:
            try:
                self.exec_block(s.body, fr)
            finally:
                self.in_try -= 1
        except PyRaise as r:
            for h in s.handlers:
                cs = (BaseException,) if h.type is None else self.eval(h.type, fr)
                cs = cs if isinstance(cs, tuple) else (cs,)
                # what a callee under contract raises is not known
                if issubclass(r.cls, cs) or r.cls.__name__ == "Reject" and self.ctx.decide(z3.Bool(f"caught!{self.ctx.stamp()}")):
                    if h.name:
                        self.assign_name(fr, h.name, Obj(r.cls, self.ctx.stamp()))
                    self.exec_block(h.body, fr)
                    return
            raise
        else:
            self.exec_block(s.orelse, fr)

    def x_With(self, s, fr):
        from . import builtins as B
        if len(s.items) != 1:
            self.unsupported("with", s)
        h = self.eval(s.items[0].context_expr, fr)
        if not (isinstance(h, Obj) and h.cls == "file"):
            self.unsupported("with on something else than open()", s)
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, h, fr)
        self.exec_block(s.body, fr)
        B.close_file(self, h)

    def x_While(self, s, fr):
        inv = self.world.invariant_for(self, fr, s)
        if inv is not None:
            return inv()
        n = 0
        while True:
            c = self.truth(self.eval(s.test, fr))
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    c = z3.is_true(c)
            if not isinstance(c, bool):
                pat = self.counting_while(s, fr)
                if pat is not None:
                    return pat()
                if self.chasing_while(s, fr):
                    return
                self.unsupported("while loop on a symbolic condition without invariant", s)
            if not c:
                self.exec_block(s.orelse, fr)
                return
            n += 1
            if n > 400:
                self.unsupported("while loop does not end", s)
            try:
                self.exec_block(s.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass

    def counting_while(self, s, fr):
        """while i < len(xs): ... i += 1   (i only changed by the last statement)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
            return None
        var = t.left.id
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == var and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        for n in ast.walk(ast.Module(body=s.body[:-1], type_ignores=[])):
            if isinstance(n, ast.Name) and n.id == var and not isinstance(n.ctx, ast.Load):
                return None
            if isinstance(n, (ast.Continue, ast.While)):
                return None
        start = self.ctx.getloc(("var", fr, var))
        if start != 0:
            return None
        bound = self.eval(t.comparators[0], fr)
        if not isinstance(bound, SInt):
            return None

        def go():
            base = Base(self.ctx, "range", "range", (z3.IntVal(0),), bound.t, ("int",))
            if self.ctx.check(bound.t < 0) != z3.unsat:
                self.unsupported("while bound may be negative", s)
            fo = IFold(base, z3.Int(f"i!{self.ctx.stamp()}"), [(z3.BoolVal(True), ())])
            fo.total = True
            fo.ident = True

            def visit(v):
                self.assign_name(fr, var, v)
                self.exec_block(s.body[:-1], fr)
            try:
                self.iterate((fo,), visit)
            except BreakSig:
                return
            self.assign_name(fr, var, bound)
        return go

    def chasing_while(self, s, fr):
        """while test(x): x = step(x)   for an object x, test and step without
        effects: the result is an unknown function of x, the same one for the
        same test and step; it satisfies the negated test (the loop ends)"""
        from .invariant import mutated_names
        ctx = self.ctx
        mut, names = mutated_names(s.body)
        if mut or s.orelse or len(names) != 1 or any(isinstance(n, (ast.Break, ast.Return, ast.Raise)) for st in s.body for n in ast.walk(st)):
            return False
        var = ("var", fr, list(names)[0])
        x0 = ctx.getloc(var)
        if not isinstance(x0, SRef):
            return False
        p = z3.Int("chase!p")
        typ = self.world.ref_type(x0.classes)
        start = ctx.stamp()

        def put():
            ctx.setloc(var, SRef(p, x0.classes))
            ctx.assume_type(p, typ)

        def test():
            put()
            return self.truth(self.eval(s.test, fr))

        def step():
            put()
            ctx.assume(F)
            self.exec_block(s.body, fr)
            v = ctx.getloc(var)
            if isinstance(v, SRef) and ctx.check(v.t == 0, timeout=2000) != z3.unsat:
                return None
            return v

        def capture(mark):
            if any(cont.stamp < start and (kind, cont, name) != var for (kind, cont, name), _ in ctx.trail[mark:]):
                self.unsupported("while loop with effects", s)
        nreads = len(self.prev_reads)
        path = lambda cs: z3.And([x for kd, x in cs if kd == "branch"] or [z3.BoolVal(True)])
        fs = []
        for cs, (kind, v), _ in ctx.explore(test, capture=capture):
            if kind != "next":
                return False
            fs.append(z3.And(path(cs), self.f(v)))
        F = z3.simplify(z3.Or(fs))
        nxt = None
        for cs, (kind, v), _ in ctx.explore(step, capture=capture):
            if kind != "next" or not isinstance(v, SRef) or not set(v.classes) <= set(x0.classes):
                return False
            nxt = v.t if nxt is None else z3.If(path(cs), v.t, nxt)
        if ctx.check(x0.t == 0, timeout=2000) != z3.unsat:
            return False
        if nxt is None or contains(F, {i.get_id() for i in ctx.idx}) or contains(nxt, {i.get_id() for i in ctx.idx}):
            return False
        name = ctx.skolem("chase", IntS, z3.And(F, nxt == CANON)).decl().name()
        W = ctx.func(name + "!end", IntS, IntS)
        at = lambda f, t: subst(f, [(p, t)])
        end = W(x0.t)
        ctx.assume_type(end, typ)
        ctx.assume(z3.Not(at(F, end)))
        ctx.assume(z3.If(at(F, x0.t), end == W(at(nxt, x0.t)), end == x0.t))
        # what a step preserves holds along the whole chain
        keeps = [r for r in self.preserved if ctx.check(z3.And(F, r(nxt) != r(p), *ctx.type_facts(p, typ)), timeout=5000) == z3.unsat]
        q = z3.Int("chase!q")
        for r in keeps:
            ctx.define(z3.ForAll([q], r(W(q)) == r(q), patterns=[W(q)]))
        new = self.prev_reads[nreads:]
        del self.prev_reads[nreads:]
        for rd in new:
            if contains(rd[3].t, {p.get_id()}):
                rd = rd[:5] + (z3.And([r(p) == r(x0.t) for r in keeps] or [z3.BoolVal(True)]),)
            self.prev_reads.append(rd)
        ctx.setloc(var, SRef(end, x0.classes))
        return True

    def x_For(self, s, fr):
        inv = self.world.invariant_for(self, fr, s)
        if inv is not None:
            return inv()
        it = self.eval(s.iter, fr)

        def visit(v):
            self.assign(s.target, v, fr)
            try:
                self.exec_block(s.body, fr)
            except ContinueSig:
                pass
        try:
            if isinstance(it, LList) and it.kind in ("set", "bag") and not (len(it.items) <= 1 and all(isinstance(x, E) for x in it.items)):
                self.any_order(it, visit, s)
            else:
                self.iterate(self.items_of(it, s), visit)
        except BreakSig:
            return
        self.exec_block(s.orelse, fr)

    def any_order(self, v, visit, node):
        """loop over a set: fine when all it does is to put things into sets"""
        ctx = self.ctx
        mark, start = len(ctx.trail), ctx.stamp()
        try:
            self.iterate(v.items, visit)
        except (BreakSig, ReturnSig):
            self.unordered(v, node)
        for kind, cont, name in {l[:3]: 0 for l, _ in ctx.trail[mark:]}:
            if cont.stamp >= start:
                continue
            if kind == "var":
                ctx.setloc((kind, cont, name), Poison("variable set by a loop over a set"))
            elif kind == "items" and isinstance(cont, LList) and cont.kind == "set" and cont.home is None:
                pass
            elif kind == "items" and isinstance(cont, LDict) and cont.home is None and only_sets(cont.items):
                pass
            else:
                self.unordered(v, node)

    def x_FunctionDef(self, s, fr):
        self.unsupported("nested function", s)

    # ------------------------------------------------------------- iteration
    def items_of(self, v, node=None):
        v = self.narrow(v)
        if isinstance(v, LList):
            if v.kind in ("set", "bag") and not (all(isinstance(x, E) for x in v.items) and len(v.items) <= 1):
                return self.unordered(v, node)
            return v.items
        if isinstance(v, LDict):
            self.need_unique(v, node)
            return self.map_items(v.items, lambda kv: kv[0])
        if isinstance(v, tuple):
            return tuple(E(x) for x in v)
        if isinstance(v, str):
            return tuple(E(c) for c in v)
        if isinstance(v, GenVal):
            return self.gen_list(v).items
        if isinstance(v, SetDiff):
            return self.unordered(v, node)
        if v is None or isinstance(v, (SInt, SReal, SBool, int, float)):
            raise PyRaise(TypeError)
        if isinstance(v, App):
            self.unsupported(f"iteration over {v.name}", node)
        self.unsupported(f"iteration over {v!r}", node)

    def unordered(self, v, node):
        self.unsupported("iteration over an unordered set", node)

    def need_unique(self, d, node):
        """iteration over a dict built by assignments: keys must be distinct"""
        if log_entries(d.items):
            self.unsupported("iteration over a dict filled through setdefault in a loop", node)
        if all(isinstance(i, E) for i in d.items):
            ks = [i.v[0] for i in d.items]
            for a in range(len(ks)):
                for b in range(a):
                    r = self.eq(ks[a], ks[b])
                    if r is True or (r is not False and self.ctx.check(r) != z3.unsat):
                        self.unsupported("dict with possibly repeated keys", node)
            return
        if len(d.items) == 1 and isinstance(d.items[0], Fold):
            if self.distinct_keys(d.items[0]):
                return
        self.unsupported("dict with possibly repeated keys", node)

    def distinct_keys(self, fo):
        a = self.flat_keys(fo)
        if a is None:
            return False
        idxs, cond, key = a
        s1 = [z3.Int(f"u!{self.ctx.stamp()}") for _ in idxs]
        s2 = [z3.Int(f"u!{self.ctx.stamp()}") for _ in idxs]
        p1, p2 = list(zip(idxs, s1)), list(zip(idxs, s2))
        self.ctx.solver.push()
        try:
            self.ctx.solver.add(subst(cond, p1), subst(cond, p2), z3.Or([x != y for x, y in zip(s1, s2)]))
            self.ctx.solver.add(self.f(self.eq(subst(key, p1), subst(key, p2))))
            return self.ctx.check(timeout=5000) == z3.unsat
        finally:
            self.ctx.solver.pop()

    def flat_keys(self, fo):
        """a fold with single case: (index vars, condition, key value)"""
        cases = [(c, d) for c, d in fo.cases if d]
        if len(cases) > 1 and all(len(d) == 1 and isinstance(d[0], E) and self.same_syntax(d[0].v[0], cases[0][1][0].v[0]) for _, d in cases):
            cases = [(z3.Or([c for c, _ in cases]), cases[0][1])]
        if len(cases) != 1 or len(cases[0][1]) != 1:
            return None
        c, d = cases[0]
        rng = z3.And(fo.idx >= 0, fo.idx < fo.base.length, c)
        it = d[0]
        if isinstance(it, E):
            return [fo.idx], rng, it.v[0]
        if isinstance(it, Fold):
            r = self.flat_keys(it)
            if r is None:
                return None
            return [fo.idx] + r[0], z3.And(rng, r[1]), r[2]
        return None

    def map_items(self, items, f):
        out = []
        for it in items:
            if isinstance(it, E):
                out.append(E(f(it.v)))
            elif isinstance(it, Cond):
                out.append(it.copy(it.base, [(c, self.map_items(d, f)) for c, d in it.cases]))
            elif isinstance(it, Fold):
                n = IFold(it.base, it.idx, [(c, self.map_items(d, f)) for c, d in it.cases])
                n.total = getattr(it, "total", False)
                out.append(n)
            else:
                self.unsupported("view of accumulator")
        return tuple(out)

    def iterate(self, items, visit):
        for it in items:
            if isinstance(it, E):
                visit(it.v)
            elif isinstance(it, Cond):
                self.iterate(self.taken(it), visit)
            elif isinstance(it, Fold):
                self.summarize(it.base, self.fold_visit(it, visit))
            else:
                self.unsupported("iteration over accumulator")

    def taken(self, cond):
        """items of a conditional part: fork on which case holds"""
        k = self.ctx.choose([c for c, _ in cond.cases]) if len(cond.cases) > 1 else 0
        return cond.cases[k][1]

    def fold_visit(self, fo, visit):
        def go(i):
            if getattr(fo, "ident", False):
                visit(self.ctx.base_elem(fo.base, i))
                return
            cases = [(subst(c, [(fo.idx, i)]), d) for c, d in fo.cases if d]
            if not cases:
                return
            opts = [c for c, _ in cases]
            if getattr(fo, "total", False) and len(opts) == 1:
                self.ctx.assume(opts[0])
                k = 0
            else:
                if not getattr(fo, "total", False):
                    opts = opts + [z3.Not(z3.Or(opts))]
                k = self.ctx.choose(opts)
            if k < len(cases):
                self.iterate(subst(cases[k][1], [(fo.idx, i)]), visit)
        return go

    # ------------------------------------------------------ loop summarising
    def summarize(self, base, visit):
        ctx = self.ctx
        n = base.length
        ns = z3.simplify(n)
        if z3.is_int_value(ns) and ns.as_long() <= 12:
            for k in range(ns.as_long()):
                visit(z3.IntVal(k))
            return
        ctx.stats.loops += 1
        start = ctx.stamp()
        W = {}
        pre = {}
        nholes = len(self.mem_holes)
        nreads = len(self.prev_reads)
        paths = None
        for attempt in range(10):
            i = z3.Int(f"i!{ctx.stamp()}")
            del self.mem_holes[nholes:]
            del self.prev_reads[nreads:]

            def run():
                for key, (loc, marker) in W.items():
                    ctx.trail.append((loc, ctx.getloc(loc)))
                    ctx._put(loc, marker)
                visit(i)

            def capture(mark):
                mut = {}
                for loc, _ in ctx.trail[mark:]:
                    kind, cont, name = loc
                    if cont.stamp < start:
                        mut[(kind, id(cont), name)] = loc
                return {k: (loc, ctx.getloc(loc)) for k, loc in mut.items()}
            paths = ctx.explore(run, assume=[i >= 0, i < n], idx=i, capture=capture, side=True, start=start)
            new = {}
            for _, _, cap in paths:
                for k, (loc, _) in cap.items():
                    if k not in W:
                        new[k] = loc
            if not new:
                break
            for k, loc in new.items():
                pre[k] = ctx.getloc(loc)
                W[k] = (loc, self.prev_marker(loc, pre[k]))
        else:
            raise Unsupported("loop analysis does not converge")
        holes = self.mem_holes[nholes:]
        del self.mem_holes[nholes:]
        reads = self.prev_reads[nreads:]
        del self.prev_reads[nreads:]
        # what each path does
        P = []
        for conds, outcome, cap in paths:
            bs = [x for kd, x in conds if kd == "branch"]
            c = z3.And(bs) if bs else z3.BoolVal(True)
            P.append((c, outcome, {k: v[1] for k, v in cap.items()}, conds))
        facts = P
        P = self.merge_paths(P)
        # iterations before the one that leaves the loop all took a `next`
        # path: what all of these paths have in common need not be repeated
        if any(o[0] != "next" for _, o, _, _ in P):
            sets = [{x.get_id() for kd, x in cs if kd == "branch"} for _, o, _, cs in P if o[0] == "next"]
            common = set.intersection(*sets) if sets else set()
            P2 = []
            for c, o, cap, cs in P:
                if o[0] == "next":
                    bs = [x for kd, x in cs if kd == "branch" and x.get_id() not in common]
                    c = z3.And(bs) if bs else z3.BoolVal(True)
                P2.append((c, o, cap, cs))
            P = P2
        # classify the accumulators
        rep = []          # substitutions for Prev constants
        summ = {}
        for k, (loc, marker) in W.items():
            summ[k] = self.classify(k, loc, marker, pre[k], P, i)
        for k, (loc, marker) in W.items():
            s = summ[k]
            if s[0] == "sum" and isinstance(marker, SInt):
                c = s[1]
                if c is not None:
                    rep.append((marker.t, self.num(pre[k])[1] + c * i))
                elif any(contains(p[0], {marker.t.get_id()}) for p in P):
                    raise Unsupported("branch on a running total")
            elif s[0] in ("or", "and") and isinstance(marker, SBool):
                p0 = self.as_formula(pre[k])
                hits = s[1]
                j = z3.Int(f"q!{ctx.stamp()}")
                ex = Exists([j], z3.And(j >= 0, j < i, subst(hits, [(i, j)])))
                rep.append((marker.t, z3.Or(p0, ex) if s[0] == "or" else z3.And(p0, z3.Not(ex))))
        # membership in / emptiness of the part accumulated so far
        macros = []
        for (loc, what, val, c) in holes:
            k = (loc[0], id(loc[1]), loc[2])
            if k not in W:
                self.mem_holes.append((loc, what, val, c))
                continue
            if summ[k][0] != "append":
                raise Unsupported("membership in a rewritten accumulator")
            items0 = pre[k]
            f0 = self.hole_formula(what, val, items0)
            deltas = summ[k][1]
            j = z3.Int(f"q!{ctx.stamp()}")
            alts = []
            for cc, d in deltas:
                if what == "member":
                    cc = self.drop_dedupe(cc, d, loc, holes)
                g = self.hole_formula(what, self.freshen(val, i, None), subst(d, [(i, j)]))
                if g is False:
                    continue
                alts.append(z3.And(subst(cc, [(i, j)]), self.f(g)))
            ex = Exists([j], z3.And(j >= 0, j < i, z3.Or(alts))) if alts else z3.BoolVal(False)
            macros.append((c, z3.Or(self.f(f0), ex)))
        macros = [Macro(c, b) for c, b in macros]

        def R(x):
            if not rep and not macros:
                return x
            for _ in range(3):
                x = subst(x, rep)
                if macros:
                    x = subst(x, macros)
            return x
        if rep or macros:
            ids = {a.get_id() for a, _ in rep} | {m.name for m in macros}
            P = [(R(c), o if o[0] != "return" else ("return", R(o[1])), {k: R(v) if not isinstance(v, Poison) else v for k, v in cap.items()},
                  [(kd, R(x)) for kd, x in conds]) for c, o, cap, conds in P]
            for c, o, cap, _ in P:
                if contains(c, ids):
                    raise Unsupported("loop-carried condition")
            for k, (loc, marker) in W.items():
                summ[k] = self.resummarize(summ[k], R)
            facts = [(None, None, None, [(kd, R(x)) for kd, x in conds]) for _, _, _, conds in facts]
        # reads of heap locations that other iterations write
        for (hloc, owner, field, ref, _, *also) in reads:
            k = (hloc[0], id(hloc[1]), hloc[2])
            if k not in W:
                self.prev_reads.append((hloc, owner, field, R(ref), None, *[R(a) for a in also]))
                continue
            j = z3.Int(f"q!{ctx.stamp()}")
            for cc, d in summ[k][1]:
                h = self.heap_hit(subst(R(d), [(i, j)]), owner, field, R(ref))
                if h is False:
                    continue
                ctx.solver.push()
                ctx.solver.add(j >= 0, j < i, i < n, subst(R(cc), [(i, j)]), self.f(h), *[R(a) for a in also])
                ctx.solver.add(*[x for _, _, _, cs in facts for kd, x in cs if kd == "def" and z3.is_quantifier(x)])
                r = ctx.check(timeout=5000)
                ctx.solver.pop()
                if r != z3.unsat:
                    raise Unsupported("an iteration may read what an earlier one wrote")
        # facts that hold for every iteration
        self.export_facts(facts, i, n)
        exits = [(c, o, cap, cs) for c, o, cap, cs in P if o[0] != "next"]
        nexts = [(c, o, cap, cs) for c, o, cap, cs in P if o[0] == "next"]
        if exits:
            ex_at = lambda j: z3.Or([subst(c, [(i, j)]) for c, _, _, _ in exits])
            hit = exists(ctx, n, ex_at)
            k = ctx.fresh("k", IntS)
            # k is the first iteration that leaves the loop, if there is one
            ctx.assume(z3.Implies(hit, z3.And(k >= 0, k < n, ex_at(k), forall(ctx, k, lambda j: z3.Not(ex_at(j))))))
            if not self.in_try and all(o[0] == "raise" for _, o, _, _ in exits):
                self.raise_if(hit, exits[0][1][1].cls, exits[0][1][1].where)
                exits = []
        if exits:
            opts = [z3.Not(hit)]
            for c, _, _, _ in exits:
                opts.append(z3.And(hit, subst(c, [(i, k)])) if len(exits) > 1 else hit)
            pick = ctx.choose(opts)
            if pick > 0:
                c, o, cap, cs = exits[pick - 1]
                part = Base(ctx, "slice", "prefix", (base, k), k, base.elem_type)
                self.apply_summary(W, pre, summ, part, i, k, k, nexts)
                for kk, v in cap.items():
                    loc = W[kk][0]
                    v = subst(v, [(i, k)]) if not isinstance(v, Poison) else v
                    self.exit_value(loc, W[kk][1], summ[kk], v)
                if o[0] == "break":
                    raise BreakSig()
                if o[0] == "return":
                    raise ReturnSig(subst(o[1], [(i, k)]))
                raise PyRaise(o[1].cls, o[1].where)
        self.apply_summary(W, pre, summ, base, i, None, n, nexts)

    def merge_paths(self, P):
        """paths of the body with the same effect become one; raising paths
        are told apart by the exception only (unless a try could see more)"""
        groups = []
        for p in P:
            c, o, cap, cs = p
            for g in groups:
                c2, o2, cap2, _ = g[0]
                if o[0] != o2[0]:
                    continue
                if o[0] == "raise":
                    if o[1].cls is not o2[1].cls:
                        continue
                    if not self.in_try:
                        break
                if o[0] == "return" and not self.same_syntax(o[1], o2[1]):
                    continue
                if set(cap) == set(cap2) and all(self.same_value(cap[k], cap2[k]) for k in cap):
                    break
            else:
                groups.append([p])
                continue
            g.append(p)
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            ls = [[x for kd, x in cs if kd == "branch"] for _, _, _, cs in g]
            bs = tree_or(ls)
            out.append((z3.And(bs) if bs else z3.BoolVal(True), g[0][1], g[0][2], [("branch", b) for b in bs]))
        return out

    def same_value(self, a, b):
        if a is b:
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_value(x, y) for x, y in zip(a, b))
        if isinstance(a, PrevSeg) and isinstance(b, PrevSeg):
            return a.loc == b.loc
        if isinstance(a, SStr) and isinstance(b, SStr):
            return self.same_value(a.pieces, b.pieces)
        if isinstance(a, E) and isinstance(b, E):
            return self.same_value(a.v, b.v)
        return self.same_syntax(a, b)

    def drop_dedupe(self, cc, d, loc, holes):
        """`if v not in acc: acc.append(v)`: v is in acc afterwards anyway, so
        for membership the test can be ignored"""
        if len(d) != 1 or not isinstance(d[0], E):
            return cc
        parts = cc.children() if z3.is_and(cc) else [cc]
        keep = []
        for p in parts:
            drop = False
            if z3.is_not(p):
                for (l2, w2, v2, c2) in holes:
                    if l2 == loc and w2 == "member" and p.arg(0).eq(c2) and self.same_syntax(v2, d[0].v):
                        drop = True
            if not drop:
                keep.append(p)
        return z3.And(keep) if keep else z3.BoolVal(True)

    def freshen(self, val, i, j):
        return val

    def hole_formula(self, what, val, items):
        if what == "nonempty":
            return self.nonempty(items)
        return self.member_items(val, items, what == "key")

    def resummarize(self, s, R):
        if s[0] == "append":
            return ("append", [(R(c), R(d)) for c, d in s[1]], s[2])
        if s[0] == "sum":
            return ("sum", s[1], [(R(c), R(d)) for c, d in s[2]])
        if s[0] in ("or", "and"):
            return (s[0], R(s[1]))
        if s[0] == "orfold":
            return ("orfold", [(R(c), R(d)) for c, d in s[1]])
        if s[0] == "temp":
            return ("temp", [(R(c), R(v) if not isinstance(v, Poison) else v) for c, v in s[1]])
        return s

    def prev_marker(self, loc, val):
        if loc[0] == "items":
            return (PrevSeg(loc),)
        if isinstance(val, bool) or isinstance(val, SBool):
            return SBool(z3.Const(f"prev!{self.ctx.stamp()}", BoolS))
        if isinstance(val, (int, SInt)) and not isinstance(val, enum.Enum):
            return SInt(z3.Const(f"prev!{self.ctx.stamp()}", IntS))
        if isinstance(val, (str, SStr)) and not isinstance(val, enum.Enum):
            return SStr((PrevSeg(loc),))
        return Poison(f"variable {loc[2]} carried between iterations")

    def classify(self, k, loc, marker, pre, P, i):
        """how the iterations change this location"""
        nexts = [(c, cap.get(k, marker)) for c, o, cap, _ in P if o[0] == "next"]
        if isinstance(marker, SStr):
            nexts = self.split_conds(nexts)
        if loc[0] == "items" or isinstance(marker, SStr):
            deltas = []
            ok = True
            for c, v in nexts:
                items = v if loc[0] == "items" else (v.pieces if isinstance(v, SStr) else None)
                if loc[0] != "items" and isinstance(v, str):
                    items = None
                if items is None or not items or not isinstance(items[0], PrevSeg) or items[0].loc != loc:
                    ok = False
                    break
                d = tuple(items[1:])
                if has_prev(d):
                    ok = False
                    break
                deltas.append((c, d))
            if ok:
                return ("append", deltas, i)
            if loc[0] == "items":
                raise Unsupported("list is rewritten inside a loop")
            if any(has_prev(v) for _, v in nexts if isinstance(v, SStr) and not self.same_syntax(v, marker)):
                raise Unsupported("string accumulator is not extended at its end")
            return ("temp", [(c, Keep("string variable") if isinstance(v, SStr) and self.same_syntax(v, marker) else v) for c, v in nexts])
        if isinstance(marker, SInt):
            pid = {marker.t.get_id()}
            if all(not mentions(v, pid) for _, v in nexts) and nexts:
                return ("temp", nexts)
            deltas = []
            kind = None
            for c, v in nexts:
                kd, t = self.num(v)
                if t.eq(marker.t):
                    deltas.append((c, None))
                    continue
                if z3.is_app(t) and t.decl().name() == "bor" and t.arg(0).eq(marker.t) and not contains(t.arg(1), pid):
                    kind = kind or "orfold"
                    if kind != "orfold":
                        raise Unsupported("mixed accumulator")
                    deltas.append((c, t.arg(1)))
                    continue
                if z3.is_app(t) and t.decl().name() == "bor" and t.arg(1).eq(marker.t) and not contains(t.arg(0), pid):
                    kind = kind or "orfold"
                    deltas.append((c, t.arg(0)))
                    continue
                orf = self.nested_orfold(t, marker)
                if orf is not None:
                    kind = kind or "orfold"
                    deltas.append((c, orf))
                    continue
                d = z3.simplify(t - marker.t)
                if contains(d, pid):
                    # unchanged on some paths, overwritten on others
                    return ("temp", [(c2, Keep("variable") if self.num(v2)[1].eq(marker.t) else v2) for c2, v2 in nexts])
                if kind == "orfold":
                    raise Unsupported("mixed accumulator")
                kind = "sum"
                deltas.append((c, d))
            if kind == "orfold":
                return ("orfold", [(c, d) for c, d in deltas if d is not None])
            ds = [(c, d if d is not None else z3.IntVal(0)) for c, d in deltas]
            const = None
            if ds and all(z3.is_int_value(d) and d.as_long() == ds[0][1].as_long() for _, d in ds if z3.is_int_value(ds[0][1])) and all(z3.is_int_value(d) for _, d in ds):
                const = ds[0][1].as_long()
            return ("sum", const, ds)
        if isinstance(marker, SBool):
            ors, ands = [], []
            for c, v in nexts:
                t = z3.simplify(self.as_formula(v))
                if t.eq(marker.t):
                    continue
                on = z3.simplify(subst(t, [(marker.t, z3.BoolVal(True))]))
                off = z3.simplify(subst(t, [(marker.t, z3.BoolVal(False))]))
                ors.append(z3.And(c, off))
                ands.append(z3.And(c, z3.Not(on)))
            never = lambda fs: all(z3.is_false(z3.simplify(f)) or self.ctx.check(f, timeout=150) == z3.unsat for f in fs)
            if never(ands):         # never switched off
                return ("or", z3.Or(ors))
            if never(ors):
                return ("and", z3.Or(ands))
            return ("temp", [(c, Keep("flag") if z3.simplify(self.as_formula(v)).eq(marker.t) else v) for c, v in nexts])
        return ("temp", [(c, Keep("variable") if v is marker else v) for c, v in nexts])

    def split_conds(self, nexts):
        """a string that is overwritten in some branch: one case per branch"""
        out = []
        for c, v in nexts:
            if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], Cond) and has_prev(v):
                out.extend(self.split_conds([(z3.And(c, c2), SStr(d)) for c2, d in v.pieces[0].cases]))
            else:
                out.append((c, v))
        return out

    def nested_orfold(self, t, marker):
        return None

    def export_facts(self, P, i, n):
        ctx = self.ctx
        seen = set()
        out = []
        for c, o, cap, conds in P:
            prefix = []
            for kind, x in conds:
                if kind == "branch":
                    prefix.append(x)
                else:
                    pre = [] if kind == "def" else prefix
                    key = (tuple(p.get_id() for p in pre), x.get_id())
                    if key in seen:
                        continue
                    seen.add(key)
                    if x.eq(i >= 0) or x.eq(i < n):
                        continue
                    out.append((list(pre), x))
        # a fact known without any branch makes the conditional copies redundant
        uncond = {x.get_id() for p, x in out if not p}
        done = set()
        for prefix, x in out:
            if prefix and x.get_id() in uncond:
                continue
            f = z3.Implies(z3.And(prefix), x) if prefix else x
            if f.get_id() in done:
                continue
            done.add(f.get_id())
            ctx._keep(f)
            if contains(f, {i.get_id()}):
                j = z3.Int(f"q!{ctx.stamp()}")
                pats = self.fresh_patterns(f, i)
                ctx.assume(Forall([j], z3.Implies(z3.And(j >= 0, j < n), subst(f, [(i, j)])), patterns=[subst(p, [(i, j)]) for p in pats]))
            else:
                ctx.assume(z3.Implies(n > 0, f))

    def fresh_patterns(self, f, i):
        """facts defining a fresh function of the iteration are only
        instantiated where that function is used"""
        out, seen, todo = [], set(), [f]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_app(x) and x.num_args() and x.decl().name() in self.world.freshnames and \
                    any(a.eq(i) for a in x.children()) and all(z3.is_const(a) and not z3.is_var(a) for a in x.children()):
                out.append(x)
            todo.extend(x.children())
        return out

    def apply_summary(self, W, pre, summ, base, i, k, n, nexts):
        """set every changed location to its value after `n` iterations"""
        ctx = self.ctx
        for key, (loc, marker) in W.items():
            s = summ[key]
            p = pre[key]
            if s[0] == "append":
                cases = [(c, d) for c, d in s[1] if d]
                if not cases:
                    val = p
                else:
                    idx = z3.Int(f"i!{ctx.stamp()}")
                    fo = IFold(base, idx, [(subst(c, [(i, idx)]), subst(d, [(i, idx)])) for c, d in cases])
                    fo.total = len(cases) == len(s[1])
                    if loc[0] == "items":
                        val = p + (fo,)
                    else:
                        val = SStr(self.pieces(p) + (fo,))
            elif s[0] == "sum":
                if s[1] is not None:
                    val = self.mknum("int", self.num(p)[1] + s[1] * n)
                else:
                    val = SInt(self.num(p)[1] + self.numfold("sum", base, i, s[2]))
            elif s[0] == "orfold":
                if not s[1]:
                    val = p
                else:
                    t = self.numfold("or", base, i, s[1])
                    kd, pt = self.num(p)
                    pt = z3.simplify(pt)
                    val = SInt(t) if z3.is_int_value(pt) and pt.as_long() == 0 else SInt(ctx.func("bor", IntS, IntS, IntS)(pt, t))
            elif s[0] in ("or", "and"):
                p0 = self.as_formula(p)
                hit = exists(ctx, n, lambda j: subst(s[1], [(i, j)]))
                val = SBool(z3.simplify(z3.Or(p0, hit) if s[0] == "or" else z3.And(p0, z3.Not(hit))))
            else:
                val = self.temp_after(s[1], p, i, n, loc)
            ctx.trail.append((loc, ctx.getloc(loc)))
            ctx._put(loc, val)

    def temp_after(self, vals, p, i, n, loc):
        """a variable overwritten in the body: value after the loop"""
        why = Poison(f"variable {loc[2]} after a loop")
        vs = [v for _, v in vals]
        if any(isinstance(v, Keep) for v in vs):
            sets = [(c, v) for c, v in vals if not isinstance(v, Keep)]
            if p is UNBOUND or isinstance(p, Poison) or any(isinstance(v, (Poison, Obj, LList, LDict)) for _, v in sets):
                return why
            if not sets:
                return p
            anyset = lambda j: z3.Or([subst(c, [(i, j)]) for c, _ in sets])
            if not self.ctx.decide(exists(self.ctx, n, anyset)):
                return p
            if all(self.same_syntax(v, sets[0][1]) for _, v in sets) and not mentions(sets[0][1], {i.get_id()}):
                return sets[0][1]
            k = self.last_index(n, anyset)
            sel = self.ctx.choose([subst(c, [(i, k)]) for c, _ in sets]) if len(sets) > 1 else 0
            return subst(sets[sel][1], [(i, k)])
        if not vs or any(isinstance(v, Poison) for v in vs) or any(mentions(v, {i.get_id()}) for v in vs):
            return why
        v0 = vs[0]
        for v in vs[1:]:
            if not self.same_syntax(v0, v):
                return why
        if isinstance(v0, (Obj, LList, LDict)):
            return why
        if self.ctx.check(n <= 0) == z3.unsat:
            return v0
        if p is UNBOUND:
            # reading it after an empty loop is an error; fork now
            if self.ctx.decide(n > 0):
                return v0
            return UNBOUND
        if self.same_syntax(p, v0):
            return p
        if self.ctx.decide(n > 0):
            return v0
        return p

    def exit_value(self, loc, marker, s, v):
        """location after the iteration that left the loop"""
        ctx = self.ctx
        cur = ctx.getloc(loc)
        if loc[0] == "items":
            if v and isinstance(v[0], PrevSeg) and v[0].loc == loc and not has_prev(v[1:]):
                val = cur + tuple(v[1:])
            elif not has_prev(v):
                val = v
            else:
                raise Unsupported("accumulator at loop exit")
        elif isinstance(marker, SStr):
            if isinstance(v, SStr) and v.pieces and isinstance(v.pieces[0], PrevSeg):
                val = SStr(self.pieces(cur) + v.pieces[1:])
            else:
                val = v
        elif isinstance(marker, SInt) and isinstance(v, SInt) and contains(v.t, {marker.t.get_id()}):
            if isinstance(cur, Poison):
                val = cur
            else:
                val = subst(v, [(marker.t, self.num(cur)[1])])
        elif isinstance(marker, SBool) and isinstance(v, SBool) and contains(v.t, {marker.t.get_id()}):
            val = cur if isinstance(cur, Poison) else subst(v, [(marker.t, self.as_formula(cur))])
        else:
            val = v
        ctx.trail.append((loc, cur))
        ctx._put(loc, val)

    def numfold(self, kind, base, i, cases):
        """integer standing for the sum / bitwise-or over the base"""
        from .prove import Prover
        idx = list(self.ctx.idx)
        c = None
        for (k2, b2, i2, c2, const, idx2) in self.world.numfolds:
            if k2 != kind or len(idx2) != len(idx):
                continue
            try:
                ren = [(x, y) for x, y in zip(idx2, idx) if not x.eq(y)]
                if ren:
                    b2, c2 = subst(b2, ren), [(subst(cc, ren), subst(t, ren)) for cc, t in c2]
                if Prover(self).numfold_same(kind, base, i, cases, b2, i2, c2):
                    c = subst(const, ren) if ren else const
                    if not ren:
                        return c
                    break
            except Unsupported:
                pass
        new = c is None
        if new:
            c = self.ctx.skolem("fold_" + kind, IntS, z3.And([z3.Function("len", IntS, BoolS)(base.length)] + [
                z3.Function("case", BoolS, IntS, BoolS)(subst(cc, [(i, CANON)]), subst(t, [(i, CANON)])) for cc, t in cases]))
        if kind in ("max", "min"):
            w = self.ctx.skolem("arg" + kind, IntS, z3.Function("of", IntS, BoolS)(c))
            self.ctx.assume(z3.And(w >= 0, w < base.length, z3.Or([subst(z3.And(cc, t == c), [(i, w)]) for cc, t in cases])))
            self.ctx.assume(forall(self.ctx, base.length, lambda j: z3.And(
                [z3.Implies(subst(cc, [(i, j)]), subst((t <= c) if kind == "max" else (t >= c), [(i, j)])) for cc, t in cases])))
        if new:
            self.world.numfolds.append((kind, base, i, cases, c, idx))
        return c

    # ----------------------------------------------------------- expressions
    def eval(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported(f"expression {type(n).__name__}", n)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        if n.id in fr.vars:
            v = fr.vars[n.id]
            if isinstance(v, Poison):
                if v is UNBOUND:
                    raise PyRaise(UnboundLocalError)
                self.unsupported(f"read of {v.why}", n)
            return v
        if n.id in fr.glob:
            v = fr.glob[n.id]
            if isinstance(v, types.ModuleType):
                return v
            return self.wrap(v, f"{fr.glob.get('__name__')}.{n.id}")
        import builtins as pb
        if hasattr(pb, n.id):
            v = getattr(pb, n.id)
            if isinstance(v, type):
                return v
            if v is None or isinstance(v, (bool, int)):
                return v
            return Builtin(n.id)
        # assigned somewhere in the function, but not yet
        raise PyRaise(NameError)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr, n)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in fr.vars and not n.args:
            selfname = self.world.func_ast(fr.fn).node.args.args[0].arg
            o = fr.vars[selfname]
            cls = o.cls if isinstance(o, Obj) else (o if isinstance(o, type) else o.classes[0])
            return SuperVal(o, cls, fr.owner)
        if self.world.is_log_call(n):
            return None
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and isinstance(n.func.value, ast.Attribute) and self.ctx.idx \
                and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            o = self.eval(n.func.value.value, fr)
            if isinstance(o, SRef) and self.append_field(o, n.func.value.attr, n.func.attr, n.args[0], fr):
                return None
            f = self.getattr(self.getattr(o, n.func.value.attr, n), n.func.attr, n)
        else:
            f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, tuple):
                    args.extend(v)
                elif isinstance(v, LList) and all(isinstance(x, E) for x in v.items):
                    args.extend(x.v for x in v.items)
                elif isinstance(v, LList) and v.kind == "list" and a is n.args[-1]:
                    args.append(StarArgs(v.items))
                else:
                    self.unsupported("star argument", n)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                self.unsupported("** argument", n)
            kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs, n)

    def append_field(self, o, attr, how, arg, fr):
        """x.field.append(y) in a loop: logged as such (the field is not read)"""
        self.raise_if(o.t == 0, AttributeError)
        try:
            owner, field, typ = self.world.field_info(o.classes, self.world.canon(o.classes, attr))
        except (Unsupported, KeyError):
            return False
        if typ[0] != "list":
            return False
        x = self.eval(arg, fr)
        items = (E(x),) if how == "append" else self.items_of(x, arg)
        self.log_write(("a", owner, field, o, LList(items)))
        self.stale(owner, field)
        return True

    def e_BinOp(self, n, fr):
        return self.binop(n.op, self.eval(n.left, fr), self.eval(n.right, fr), n)

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        v = self.narrow(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            k, t = self.num(v)
            return self.mknum(k, -t)
        if isinstance(n.op, ast.UAdd):
            return v
        self.unsupported("unary operator", n)

    def e_BoolOp(self, n, fr):
        if self.merge_ifs:
            v = self.merge_eval(lambda: self.bool_op(n, fr))
            if v is not NOTHING:
                return v
        return self.bool_op(n, fr)

    def bool_op(self, n, fr):
        # short circuit; operands that are plain formulas are combined
        v = self.eval(n.values[0], fr)
        for x in n.values[1:]:
            t = self.truth(v)
            if isinstance(n.op, ast.And):
                if isinstance(t, bool):
                    if not t:
                        return v
                    v = self.eval(x, fr)
                    continue
            else:
                if isinstance(t, bool):
                    if t:
                        return v
                    v = self.eval(x, fr)
                    continue
            if isinstance(v, SBool):
                # try to evaluate the right side without forking
                r = self.quiet(x, fr)
                if r is not None:
                    v = SBool(z3.And(t, r) if isinstance(n.op, ast.And) else z3.Or(t, r))
                    continue
            take = self.ctx.decide(t)
            if isinstance(n.op, ast.And) and not take:
                return self.falsy(v)
            if isinstance(n.op, ast.Or) and take:
                return v if not isinstance(v, SBool) else True
            v = self.eval(x, fr)
        return v

    def falsy(self, v):
        if isinstance(v, SBool):
            return False
        if isinstance(v, SRef):
            return None
        return v

    def quiet(self, node, fr):
        """formula of a pure comparison of already loaded names/constants that
        cannot fork or raise; None otherwise"""
        if not self.world.quiet_ok(node):
            return None
        ex = self.ctx.stack[-1]
        mark = len(ex.taken)
        if len(ex.prefix) > mark:
            nforced = True
        try:
            probe = QuietProbe(self)
            return probe.formula(node, fr)
        except (NotQuiet, Unsupported, PyRaise):
            return None

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, fr)
            f = self.compare(op, left, right, n)
            if res is None:
                res = f
            else:
                res = self.conj([res, f])
            if res is False:
                return False
            left = right
        if isinstance(res, z3.ExprRef):
            res = z3.simplify(res)
            if z3.is_true(res):
                return True
            if z3.is_false(res):
                return False
            return SBool(res)
        return res

    def e_IfExp(self, n, fr):
        if self.merge_ifs:
            v = self.merge_eval(lambda: self.if_exp(n, fr))
            if v is not NOTHING:
                return v
        return self.if_exp(n, fr)

    def if_exp(self, n, fr):
        return self.eval(n.body, fr) if self.branch(self.eval(n.test, fr)) else self.eval(n.orelse, fr)

    def e_List(self, n, fr):
        items = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                items.extend(self.items_of(self.eval(x.value, fr), n))
            else:
                items.append(E(self.eval(x, fr)))
        return self.new_list(tuple(items))

    def e_Set(self, n, fr):
        return self.new_list(tuple(E(self.eval(x, fr)) for x in n.elts), "set")

    def e_Tuple(self, n, fr):
        return tuple(self.eval(x, fr) for x in n.elts)

    def e_Dict(self, n, fr):
        d = LDict((), self.ctx.stamp())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.unsupported("dict unpacking", n)
            d.items = d.items + (E((self.eval(k, fr), self.eval(v, fr))),)
        return d

    def e_Lambda(self, n, fr):
        return LambdaVal(n, fr)

    def e_JoinedStr(self, n, fr):
        from . import builtins as B
        out = ()
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += (v.value,)
            else:
                x = self.eval(v.value, fr)
                if v.conversion not in (-1, 115):
                    out += (App("repr", (x,)),)
                    continue
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                    out += self.pieces(B.fmt(self, x, spec))
                else:
                    out += self.pieces(B.to_str(self, x))
        s = SStr(out)
        if all(isinstance(p, str) for p in s.pieces):
            return "".join(s.pieces)
        return s

    def comp(self, n, fr, add, gens=None):
        f2 = Frame(fr.fn, fr.glob, self.ctx.stamp(), fr.owner)
        f2.vars = dict(fr.vars)

        def level(k):
            if k == len(n.generators):
                add(f2)
                return
            g = n.generators[k]
            it = self.eval(g.iter, f2 if k else fr)

            def visit(v):
                self.assign(g.target, v, f2)
                for c in g.ifs:
                    if not self.branch(self.eval(c, f2)):
                        return
                level(k + 1)
            self.iterate(self.items_of(it, n), visit)
        level(0)

    def e_ListComp(self, n, fr):
        out = self.new_list()
        self.comp(n, fr, lambda f2: self.set_items(out, out.items + (E(self.eval(n.elt, f2)),)))
        return out

    def e_SetComp(self, n, fr):
        out = self.e_ListComp(n, fr)
        return self.new_list(out.items, "set")

    def e_GeneratorExp(self, n, fr):
        return GenVal(n, fr)

    def gen_list(self, g):
        return self.e_ListComp(g.node, g.frame)

    def e_DictComp(self, n, fr):
        out = LDict((), self.ctx.stamp())
        self.comp(n, fr, lambda f2: self.set_items(out, out.items + (E((self.eval(n.key, f2), self.eval(n.value, f2))),)))
        return out

    def e_Subscript(self, n, fr):
        v = self.eval(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            lo = self.eval(sl.lower, fr) if sl.lower else None
            hi = self.eval(sl.upper, fr) if sl.upper else None
            if sl.step is not None:
                self.unsupported("slice step", n)
            if isinstance(v, str) and not isinstance(lo, Sym) and not isinstance(hi, Sym):
                return v[lo:hi]
            if isinstance(v, LList) and lo in (None, 0) and hi is None:
                return self.new_list(v.items, v.kind)
            if isinstance(v, LList) and all(isinstance(x, E) for x in v.items):
                return self.new_list(v.items[lo:hi], v.kind)
            if isinstance(v, SStr):
                if len(v.pieces) == 1 and isinstance(v.pieces[0], z3.ExprRef):
                    nm = f"slice_{lo}_{hi}"
                    self.world.strfuncs.setdefault(nm, (lambda s, lo=lo, hi=hi: s[lo:hi], None))
                    return SStr((self.ctx.func(nm, IntS, IntS)(v.pieces[0]),))
                return SStr((App("slice", (v, lo, hi)),))
            self.unsupported("slice", n)
        i = self.eval(n.slice, fr)
        if isinstance(v, type) or isinstance(v, Builtin):
            return v        # typing subscripts
        return self.index(v, i, n)





def tree_or(ls):
    """disjunction of conjunctions (paths of one decision tree), factored;
    returns the conjuncts"""
    if any(not l for l in ls):
        return []
    pre = []
    while all(ls) and all(l[0].eq(ls[0][0]) for l in ls):
        pre.append(ls[0][0])
        ls = [l[1:] for l in ls]
        if any(not l for l in ls):
            return pre
    parts = []
    for l in ls:
        for p in parts:
            if p[0].eq(l[0]):
                p[1].append(l[1:])
                break
        else:
            parts.append((l[0], [l[1:]]))
    parts = [(x, tree_or(r)) for x, r in parts]
    if len(parts) == 2:
        (x, a), (y, b) = parts
        if y.eq(z3.Not(x)) or x.eq(z3.Not(y)):
            if not a and not b:
                return pre
            if not a:
                return pre + [z3.Or(x, z3.And(b))]
            if not b:
                return pre + [z3.Or(y, z3.And(a))]
            if len(a) == len(b) and all(p.eq(q) for p, q in zip(a, b)):
                return pre + a
    return pre + [z3.Or([z3.And([x] + a) if a else x for x, a in parts])]


class CosSumMarker:
    pass


class StarArgs:
    """*args of a list of unknown length"""

    def __init__(self, items):
        self.items = items


class SuperVal:
    def __init__(self, obj, cls, after):
        self.obj, self.cls, self.after = obj, cls, after


class LoggerVal:
    pass


class NotQuiet(Exception):
    pass


class QuietProbe:
    """evaluates pure comparisons to formulas without forking"""

    def __init__(self, ip):
        self.ip = ip

    def formula(self, n, fr):
        ip = self.ip
        if isinstance(n, ast.BoolOp):
            fs = [self.formula(v, fr) for v in n.values]
            return z3.And(fs) if isinstance(n.op, ast.And) else z3.Or(fs)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return z3.Not(self.formula(n.operand, fr))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.value(n.left, fr), self.value(n.comparators[0], fr)
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                if not (isinstance(a, NUM) and isinstance(b, NUM)):
                    raise NotQuiet()
            return ip.f(ip.compare(n.ops[0], a, b))
        v = self.value(n, fr)
        if isinstance(v, (SBool, bool)):
            return ip.as_formula(v)
        raise NotQuiet()

    def value(self, n, fr):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, (ast.Name,)):
            v = self.ip.e_Name(n, fr)
            if isinstance(v, (SVal, Poison)):
                raise NotQuiet()
            return v
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            b = self.ip.e_Name(n.value, fr)
            if isinstance(b, type):
                return self.ip.class_attr(b, n.attr, None, n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            return -n.operand.value
        raise NotQuiet()


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
