"""Symbolic values of the verifier.

Everything symbolic is a z3 term over Int/Real/Bool.  Strings, object
references and enum members are encoded as integers and only told apart by
the wrapper class (strings: index into a literal table, other integers are
arbitrary distinct strings; references: 0 is None).
"""
import z3

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """construct outside the verified subset"""


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls, where=None):
        Exception.__init__(self, getattr(cls, "__name__", str(cls)))
        self.cls = cls
        self.where = where


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, value):
        Exception.__init__(self)
        self.value = value


# union of the scalar kinds, for fields typed Any
_V = z3.Datatype("Val")
_V.declare("none")
_V.declare("int", ("i", IntS))
_V.declare("real", ("r", RealS))
_V.declare("bool", ("b", BoolS))
_V.declare("str", ("s", IntS))
_V.declare("ref", ("o", IntS))
Val = _V.create()


class Sym:
    __slots__ = ()


class _T(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"


class SInt(_T):
    pass


class SCount(SInt):
    """number of occurrences; only 0, 1 and 2-or-more are told apart"""
    __slots__ = ("member", "twice")


class SReal(_T):
    pass


class SBool(_T):
    pass


class SEnum(Sym):
    """member of a Python enum: 0 is None, k is the k-th member"""
    __slots__ = ("t", "cls")

    def __init__(self, t, cls):
        self.t, self.cls = t, cls

    def __repr__(self):
        return f"SEnum({self.t})"


class SRef(Sym):
    __slots__ = ("t", "classes")

    def __init__(self, t, classes):
        self.t, self.classes = t, tuple(classes)

    def __repr__(self):
        return f"SRef({self.t}:{'|'.join(c.__name__ for c in self.classes)})"


class SVal(Sym):
    __slots__ = ("t", "types")

    def __init__(self, t, types):
        self.t, self.types = t, types

    def __repr__(self):
        return f"SVal({self.t})"


class E:
    """one list element"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"E({self.v!r})"


class PrevSeg:
    """content of an accumulator at the start of an iteration"""
    __slots__ = ("loc", "idx")

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"Prev({self.loc})"


class Fold:
    """concatenation over 0 <= idx < base.length of the item tuples of the
    case whose condition holds (none: empty)"""
    __slots__ = ("base", "idx", "cases")

    def __init__(self, base, idx, cases):
        self.base, self.idx, self.cases = base, idx, cases

    def copy(self, base, cases):
        n = type(self)(base, self.idx, cases)
        if hasattr(self, "total"):
            n.total, n.ident = self.total, self.ident
        return n

    def __repr__(self):
        return f"Fold({self.base},{self.idx},{self.cases})"


class IFold(Fold):
    """Fold with flags: total (some case holds for every index), ident"""
    __slots__ = ("total", "ident")

    def __init__(self, base, idx, cases):
        Fold.__init__(self, base, idx, cases)
        self.total = False
        self.ident = False


class Base:
    """symbolic sequence: kind + arguments identify it; elem(i) gives items"""
    __slots__ = ("kind", "name", "args", "length", "elem_type", "ctx")

    def __init__(self, ctx, kind, name, args, length, elem_type):
        self.ctx = ctx
        self.kind, self.name, self.args = kind, name, tuple(args)
        self.length, self.elem_type = length, elem_type

    def __repr__(self):
        return f"Base({self.kind},{self.name},{self.args})"


class Cond(Fold):
    """items of the one case whose condition holds (merged branches of an
    if): a fold over a single index"""
    __slots__ = ("total", "ident")
    IDX = z3.Int("i!one")

    def __init__(self, ctx, cases):
        Fold.__init__(self, Base(ctx, "one", "one", (), z3.IntVal(1), None), Cond.IDX, cases)
        self.total, self.ident = True, False

    def copy(self, base, cases):
        return Cond(self.base.ctx, cases)


class DictSlot(Sym):
    """d.setdefault(key, []) of a dict whose entries are not all known: what
    is appended through it is recorded as an entry of the dict"""
    __slots__ = ("d", "key")

    def __init__(self, d, key):
        self.d, self.key = d, key


class App(Sym):
    """application of an external / opaque function (compared by arguments)"""
    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return f"{self.name}{self.args!r}"


class SStr(Sym):
    """string: tuple of literal str | z3 Int term | App | Fold | PrevSeg"""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def __repr__(self):
        return f"SStr{self.pieces!r}"


class Stamped:
    stamp = 0


class Obj(Stamped):
    """object allocated by the code under verification"""
    frozen = False

    def __init__(self, cls, stamp):
        self.cls, self.fields, self.stamp = cls, {}, stamp

    def __repr__(self):
        return f"<{getattr(self.cls, '__name__', self.cls)} {self.fields}>"


class LList(Stamped):
    """list / set: items is a tuple of E | Fold | PrevSeg.
    home: None for a list the code made, otherwise where it lives
    ((owner, field, ref term) in the heap, or ('global', name))."""

    def __init__(self, items=(), stamp=0, kind="list", home=None):
        self.items, self.stamp, self.kind, self.home = tuple(items), stamp, kind, home

    def __repr__(self):
        return f"L{self.kind[0]}{self.items!r}"


class LDict(Stamped):
    """dict: sequence of (key, value) assignments, later ones win"""

    def __init__(self, items=(), stamp=0, home=None):
        self.items, self.stamp, self.home = tuple(items), stamp, home
        self.kind = "dict"

    def __repr__(self):
        return f"D{self.items!r}"


class SMap(Sym):
    """symbolic read-only dict: uninterpreted has / get of the key"""

    def __init__(self, name, args, kt, vt):
        self.name, self.args, self.kt, self.vt = name, tuple(args), kt, vt

    def __repr__(self):
        return f"SMap({self.name},{self.args})"


class SetDiff(Sym):
    def __init__(self, a, b):
        self.a, self.b = a, b


class CounterVal(Sym):
    def __init__(self, lst):
        self.lst = lst


class FuncVal:
    """a function/method of the code, by AST"""

    def __init__(self, fn, self_arg=None, owner=None):
        self.fn, self.self_arg, self.owner = fn, self_arg, owner


class Builtin:
    def __init__(self, name, self_arg=None):
        self.name, self.self_arg = name, self_arg

    def __repr__(self):
        return f"Builtin({self.name})"


class LambdaVal:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class GenVal:
    """generator expression, not yet evaluated"""

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Poison(Sym):
    """value that must not be read (temporary of a summarised loop)"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class Keep(Poison):
    """the iteration leaves the variable as it was"""


class Havoc(Sym):
    """any value: fine in messages, comparisons with it are undetermined"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Havoc({self.why})"


UNBOUND = Poison("unbound")


STALE = Poison("list read before a change of the field")
