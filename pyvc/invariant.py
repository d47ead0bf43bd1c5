"""Loops with a stated invariant.

For a loop whose lists change in ways that are no fold (work lists), the
contract names the lists (by their role, found from what they hold when the
loop is reached) and states an invariant over them.  Obligations: it holds at
entry; one arbitrary iteration from any state that satisfies it re-establishes
it and makes the variant smaller; what is done after the loop is proved from
the invariant and the negated condition only.
"""
import ast
import z3
from .values import *
from .ctx import subst
from .prove import Prover, NotProved


class Reg:
    """base list with membership predicate and position function"""

    def __init__(self, ip, base, distinct, axioms=True):
        self.base, self.distinct = base, distinct
        ctx = ip.ctx
        dom = [a.sort() for a in base.args]
        f = lambda p, *s: ctx.func(f"{p}!{base.name}", *dom, *s)
        self._at, self._mem, self._inv = f("at", IntS, IntS), f("mem", IntS, BoolS), f("pos", IntS, IntS)
        self.len = base.length
        self.args = base.args
        j, x = z3.Ints("?j ?x")
        n = self.len
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(self.mem(self.at(j)), self.inv(self.at(j)) == j) if distinct
                                             else self.mem(self.at(j))), patterns=[self.at(j)]))
        ctx.assume(z3.ForAll([x], z3.Implies(self.mem(x), z3.And(0 <= self.inv(x), self.inv(x) < n, self.at(self.inv(x)) == x)), patterns=[self.mem(x)]))

    def at(self, j):
        return self._at(*self.args, j)

    def mem(self, x):
        return self._mem(*self.args, x)

    def inv(self, x):
        return self._inv(*self.args, x)


def register(ip, base, distinct):
    if base.kind != "fn" or base.elem_type[0] not in ("ref", "str"):
        raise Unsupported(f"list of {base}")
    k = (base.name, tuple(a.get_id() for a in base.args))
    r = ip.registered.get(k)
    if r is None:
        r = ip.registered[k] = Reg(ip, base, distinct)
    return r


def lookup(ip, fo):
    if not ip.registered or not getattr(fo, "ident", False) or fo.base.kind != "fn":
        return None
    return ip.registered.get((fo.base.name, tuple(a.get_id() for a in fo.base.args)))


def fresh_list(ip, name, elem_type, distinct):
    b = ip.ctx.fn_base(f"{name}!{ip.ctx.stamp()}", (), elem_type)
    return b, register(ip, b, distinct)


def term(ip, v):
    """element as an integer term, or None"""
    if v is None:
        return z3.IntVal(0)
    if isinstance(v, str):
        return ip.ctx.lit(v)
    if isinstance(v, SRef):
        return v.t
    if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], z3.ExprRef):
        return v.pieces[0]
    if isinstance(v, SVal) and [t[0] for t in v.types] == ["str"]:
        return Val.s(v.t)
    return None


def remove(ip, v, x, node):
    """list.remove(x) on a list without repeated elements"""
    r = lookup(ip, v.items[0]) if len(v.items) == 1 and isinstance(v.items[0], Fold) else None
    t = term(ip, x)
    if r is None or t is None or not r.distinct:
        ip.unsupported("list.remove", node)
    ctx = ip.ctx
    ip.raise_if(z3.Not(r.mem(t)), ValueError)
    p = r.inv(t)
    ctx.assume(z3.And(0 <= p, p < r.len, r.at(p) == t))
    b = ctx.fn_base(f"rest!{ctx.stamp()}", (), r.base.elem_type)
    ctx.assume(b.length == r.len - 1)
    n = register(ip, b, True)
    j, y = z3.Ints("?j ?x")
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n.len), n.at(j) == z3.If(j < p, r.at(j), r.at(j + 1))), patterns=[n.at(j)]))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.len, j != p), r.at(j) == n.at(z3.If(j < p, j, j - 1))), patterns=[r.at(j)]))
    ctx.assume(z3.ForAll([y], n.mem(y) == z3.And(r.mem(y), y != t), patterns=[n.mem(y)]))
    ctx.assume(z3.ForAll([y], n.mem(y) == z3.And(r.mem(y), y != t), patterns=[r.mem(y)]))
    ip.set_items(v, ctx.ident(b))


def store(ip, v, i, x, node):
    """v[i] = x on a list of objects (or None) of unknown length"""
    fo = v.items[0] if len(v.items) == 1 else None
    t = term(ip, x)
    if not (isinstance(fo, Fold) and getattr(fo, "ident", False) and fo.base.kind == "fn" and fo.base.elem_type[0] == "ref") or t is None or v.home is not None:
        ip.unsupported("subscript assignment", node)
    if isinstance(x, SRef) and not set(x.classes) <= set(fo.base.elem_type[1]):
        ip.unsupported("subscript assignment of another class", node)
    ctx = ip.ctx
    i = ip.num(i)[1]
    n = fo.base.length
    ip.raise_if(z3.Not(z3.And(i < n, i >= -n)), IndexError)
    p = i if ctx.decide(i >= 0) else i + n
    b = ctx.fn_base(f"stored!{ctx.stamp()}", (), fo.base.elem_type)
    ctx.assume(b.length == n)
    old = lambda j: ip.ctx.func(f"at!{fo.base.name}", *[a.sort() for a in fo.base.args], IntS, IntS)(*fo.base.args, j)
    new = lambda j: ip.ctx.func(f"at!{b.name}", IntS, IntS)(j)
    j = z3.Int("?j")
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), new(j) == z3.If(j == p, t, old(j))), patterns=[new(j)]))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, j != p), new(j) == old(j)), patterns=[old(j)]))
    ctx.assume(new(p) == t)
    ip.set_items(v, ctx.ident(b))


class MapPart:
    """one element per element of another list"""

    def __init__(self, ip, fo):
        self.fo, self.len = fo, fo.base.length
        self.t = term(ip, fo.cases[0][1][0].v)
        if self.t is None:
            raise Unsupported("shape of a work list")

    def at(self, j):
        return z3.substitute(self.t, (self.fo.idx, j))

    def mem(self, x):
        j = z3.Int("?mj")
        return z3.Exists([j], z3.And(0 <= j, j < self.len, self.at(j) == x))


class View:
    """a list as functions: len, at(j), mem(x), pos(x)"""

    def __init__(self, ip, lst, distinct=True):
        self.ip = ip
        self.parts = []
        for it in lst.items:
            if isinstance(it, E):
                t = term(ip, it.v)
                if t is None:
                    raise Unsupported(f"element {it.v!r} of a work list")
                self.parts.append(t)
            elif isinstance(it, Fold) and getattr(it, "ident", False):
                self.parts.append(register(ip, it.base, distinct))
            elif isinstance(it, Fold) and ip.is_map(it) and len(it.cases) == 1:
                self.parts.append(MapPart(ip, it))
            else:
                raise Unsupported("shape of a work list")
        self.len = z3.IntVal(0)
        for p in self.parts:
            self.len = self.len + (p.len if isinstance(p, (Reg, MapPart)) else 1)
        self.len = z3.simplify(self.len)

    def at(self, j):
        off = z3.IntVal(0)
        alts = []
        for p in self.parts:
            if isinstance(p, (Reg, MapPart)):
                alts.append((j < off + p.len, p.at(z3.simplify(j - off))))
                off = off + p.len
            else:
                off = z3.simplify(off + 1)
                alts.append((j < off, p))
        if not alts:
            return self.ip.ctx.func("at!empty", IntS, IntS)(j)
        t = alts[-1][1]
        for c, x in reversed(alts[:-1]):
            t = z3.If(c, x, t)
        return t

    def mem(self, x):
        fs = [p.mem(x) if isinstance(p, (Reg, MapPart)) else x == p for p in self.parts]
        return z3.Or(fs) if fs else z3.BoolVal(False)

    def pos(self, x):
        off = z3.IntVal(0)
        alts = []
        for p in self.parts:
            if isinstance(p, Reg):
                alts.append((p.mem(x), off + p.inv(x)))
                off = off + p.len
            else:
                alts.append((x == p, off))
                off = off + 1
        if not alts:
            return z3.IntVal(-1)
        t = alts[-1][1]
        for c, x in reversed(alts[:-1]):
            t = z3.If(c, x, t)
        return t


def mutated_names(body):
    """names whose list is changed in place, and names assigned, in the body"""
    mut, assigned = set(), set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ("append", "add", "remove", "extend", "insert", "pop", "clear", "update", "discard"):
                mut.add(n.func.value.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                mut.add(n.value.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                mut.add(n.target.id)
    return mut, assigned


class LoopInv:
    """roles: role -> (variable name, element type, distinct)
    holds(S, k): list of (label, formula) over the views S[role]; k is the
    number of elements visited by a for loop.  variant(S): term or None"""

    def __init__(self, roles, holds, variant=None, name="loop"):
        self.roles, self.holds, self.variant, self.name = roles, holds, variant, name

    def views(self, ip, fr):
        S = {}
        for r, (var, ty, distinct) in self.roles.items():
            v = ip.ctx.getloc(("var", fr, var))
            if not isinstance(v, LList):
                raise Unsupported(f"{var} is no list")
            S[r] = View(ip, v, distinct) if distinct is not None else MemView(ip, v)
        return S

    def prove(self, ip, fr, k, what):
        S = self.views(ip, fr)
        pr = Prover(ip, timeout=20000)
        try:
            for label, f in self.holds(S, k):
                pr.goal(f, f"invariant of the {self.name}: {label} ({what})", refutable=False)
        finally:
            ip.inv_goals += pr.goals
        return S

    def havoc(self, ip, fr, assigned, k):
        ctx = ip.ctx
        if ctx.idx:
            raise Unsupported("loop with invariant inside another loop")
        mine = {v[0] for v in self.roles.values()}
        for n in assigned - mine:
            ctx.setloc(("var", fr, n), Poison(f"{n} of an earlier iteration"))
        for r, (var, ty, distinct) in self.roles.items():
            b, _ = fresh_list(ip, r, ty, bool(distinct))
            v = ctx.getloc(("var", fr, var))
            if var in assigned:
                ctx.setloc(("var", fr, var), LList(ctx.ident(b), ctx.stamp(), v.kind))
            else:
                if v.home is not None:
                    raise Unsupported("work list is part of the model")
                ctx.setloc(("items", v, None), ctx.ident(b))
        S = self.views(ip, fr)
        for label, f in self.holds(S, k):
            ctx.assume(f)
        if ctx.check(timeout=300) == z3.unsat:
            raise NotProved("unknown", f"invariant of the {self.name} can never hold")
        return S

    def check_writes(self, ip, fr, mark, start, assigned, live=None):
        ctx = ip.ctx
        mine = {id(ctx.getloc(("var", fr, v[0]))) for v in self.roles.values()}
        if len(mine) != len(self.roles):
            raise Unsupported("two work lists are the same list")
        for (kind, cont, name), _ in ctx.trail[mark:]:
            if cont.stamp >= start:
                continue
            if kind == "var" and cont is fr and name in assigned:
                continue
            if kind == "items" and id(cont) in mine:
                continue
            raise Unsupported(f"loop writes something its invariant does not name ({kind} {name})")
        for n, v in fr.vars.items():
            if isinstance(v, LList) and id(v) in mine and n not in {x[0] for x in self.roles.values()}:
                raise Unsupported("alias of a work list")

    def iteration(self, ip, fr, s, body, k, S, assigned):
        """one arbitrary iteration; ends the path unless it leaves the loop"""
        ctx = ip.ctx
        mark, start = len(ctx.trail), ctx.stamp()
        try:
            body()
        except ContinueSig:
            pass
        except BreakSig:
            self.check_writes(ip, fr, mark, start, assigned)
            return
        self.check_writes(ip, fr, mark, start, assigned)
        S2 = self.prove(ip, fr, k + 1 if k is not None else None, "kept by an iteration")
        if self.variant is not None:
            pr = Prover(ip, timeout=20000)
            try:
                pr.goal(z3.And(self.variant(S) >= 0, self.variant(S2) < self.variant(S)), f"the {self.name} ends", refutable=False)
            finally:
                ip.inv_goals += pr.goals
        raise Infeasible()

    def run(self, ip, fr, s):
        assigned = mutated_names(s.body)[1]
        self.prove(ip, fr, None, "at entry")
        S = self.havoc(ip, fr, assigned, None)
        ip.inv_state.append((self, fr, S))
        if ip.branch(ip.eval(s.test, fr)):
            self.iteration(ip, fr, s, lambda: ip.exec_block(s.body, fr), None, S, assigned)
            return
        ip.exec_block(s.orelse, fr)

    def run_for(self, ip, fr, s, lst, pairs):
        """for over the list object lst (which the body may change: the loop
        looks at the element at its position each time)"""
        ctx = ip.ctx
        body_assigned = mutated_names(s.body)[1]
        assigned = body_assigned | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        self.prove(ip, fr, z3.IntVal(0), "at entry")
        k = z3.Int(f"at!{ctx.stamp()}")
        ctx.assume(k >= 0)
        S = self.havoc(ip, fr, assigned, k)
        n = ip.num(ip.length(lst))[1]
        if ip.ctx.decide(k < n):
            x = ip.index(lst, SInt(k), s)
            ip.assign(s.target, (SInt(k), x) if pairs else x, fr)
            self.iteration(ip, fr, s, lambda: ip.exec_block(s.body, fr), k, S, assigned)
            return
        ip.exec_block(s.orelse, fr)


class MemView:
    """a list of which only membership matters"""

    def __init__(self, ip, lst):
        self.ip, self.items = ip, lst.items

    def mem(self, x):
        return self.ip.f(self.ip.member_items(SStr((x,)), self.items))
