"""Equality obligations between symbolic values (code result against
specification result), discharged by z3 under the current path."""
import z3
from .values import *
from .ctx import subst, contains, TIMEOUT_PROVE
from .logs import log_entries, only_sets


class NotProved(Exception):
    def __init__(self, kind, why, model=None):
        Exception.__init__(self, f"{kind}: {why}")
        self.kind, self.why, self.model = kind, why, model


def norm(ps):
    return list(SStr(tuple(ps)).pieces)


SCALARS = (SInt, SReal, SBool, SEnum, SRef, SVal)


class Prover:
    def __init__(self, ip, timeout=TIMEOUT_PROVE):
        self.ip, self.ctx = ip, ip.ctx
        self.timeout = timeout
        self.goals = 0
        self.memo = set()

    # ---- goals
    def goal(self, f, why, refutable=True):
        self.goals += 1
        if isinstance(f, bool):
            if f:
                return
            r = self.ctx.check(timeout=self.timeout)
            if r == z3.unsat:
                return
            raise NotProved("refuted" if r == z3.sat and refutable else "unknown", why,
                            self.ctx.solver.model() if r == z3.sat else None)
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        r = self.ctx.check(z3.Not(f), timeout=self.timeout)
        if r == z3.unsat:
            return
        m = self.ctx.solver.model() if r == z3.sat else None
        raise NotProved("refuted" if r == z3.sat and refutable else "unknown", why, m)

    def mismatch(self, why):
        """shapes that cannot be compared: fine only if the path is impossible"""
        self.goals += 1
        if self.ctx.check(timeout=self.timeout) == z3.unsat:
            return
        raise NotProved("unknown", why)

    def differs(self, why):
        self.goal(False, why)

    def scope(self):
        p = self

        class S:
            def __enter__(s):
                p.ctx.solver.push()
                from .ctx import Explorer
                p.ctx.stack.append(Explorer([], []))

            def __exit__(s, *a):
                p.ctx.stack.pop()
                p.ctx.solver.pop()
        return S()

    def possible(self, c):
        return self.ctx.check(c, timeout=300) != z3.unsat

    # ---- values
    def eq(self, a, b, why="value"):
        ip = self.ip
        if a is b and not isinstance(a, Poison):
            return
        if isinstance(a, Poison) or isinstance(b, Poison):
            return self.mismatch(f"{why}: {a if isinstance(a, Poison) else b}")
        if isinstance(a, str) and isinstance(b, str):
            return self.goal(a == b, why)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and not hasattr(a, "name") and not hasattr(b, "name"):
            return self.strings(list(ip.pieces(a)), list(ip.pieces(b)), why)
        if isinstance(a, SVal) or isinstance(b, SVal):
            # identity of kind matters (True is not 1)
            ta, tb = self.val(a), self.val(b)
            if ta is not None and tb is not None:
                return self.goal(ta == tb, why)
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
            if isinstance(a, (int, float, SInt, SReal)) or isinstance(b, (int, float, SInt, SReal)):
                return self.differs(f"{why}: bool against number")
        if isinstance(a, (int, SInt)) and isinstance(b, (float, SReal)) or isinstance(b, (int, SInt)) and isinstance(a, (float, SReal)):
            return self.differs(f"{why}: int against float")
        if isinstance(a, SCALARS) or isinstance(b, SCALARS):
            if isinstance(a, App) or isinstance(b, App):
                return self.mismatch(f"{why}: {a!r} against {b!r}")
            return self.goal(ip.eq(a, b), why)
        if isinstance(a, App) and isinstance(b, App):
            return self.apps(a, b, why)
        if isinstance(a, App) and isinstance(b, SStr) or isinstance(b, App) and isinstance(a, SStr):
            return self.strings(list(ip.pieces(a)), list(ip.pieces(b)), why)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return self.differs(f"{why}: length {len(a)} against {len(b)}")
            for n, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, f"{why}[{n}]")
            return
        if isinstance(a, LDict) and isinstance(b, LDict):
            return self.dicts(a, b, why)
        if isinstance(a, LList) and isinstance(b, LList):
            if a.kind in ("set", "bag") or b.kind in ("set", "bag"):
                return self.sets(a, b, why)
            return self.lists(list(a.items), list(b.items), why)
        if isinstance(a, SMap) and isinstance(b, SMap) and a.name == b.name:
            for x, y in zip(a.args, b.args):
                self.goal(x == y, why)
            return
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls is not b.cls:
                return self.differs(f"{why}: {a.cls} against {b.cls}")
            k = (id(a), id(b))
            if k in self.memo:
                return
            self.memo.add(k)
            for f in sorted(set(a.fields) | set(b.fields)):
                if f not in a.fields or f not in b.fields:
                    return self.mismatch(f"{why}.{f} only on one side")
                self.eq(a.fields[f], b.fields[f], f"{why}.{f}")
            return
        if isinstance(a, SetDiff) and isinstance(b, SetDiff):
            self.eq(a.a, b.a, why)
            self.eq(a.b, b.b, why)
            return
        if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (LList, LDict, Obj)) or isinstance(b, (LList, LDict, Obj)):
            if (a is None or b is None) and isinstance(a if b is None else b, (SStr, LList, LDict, Obj)):
                return self.differs(f"{why}: None against a value")
            return self.mismatch(f"{why}: {a!r} against {b!r}")
        return self.goal(bool(a == b) and type(a) is type(b), f"{why}: {a!r} against {b!r}")

    def val(self, v):
        if isinstance(v, SVal):
            return v.t
        if v is None:
            return Val.none
        if isinstance(v, (bool, SBool)):
            return Val.bool(self.ip.as_formula(v))
        if isinstance(v, (int, SInt)):
            return Val.int(self.ip.num(v)[1])
        if isinstance(v, (float, SReal)):
            return Val.real(self.ip.num(v)[1])
        if isinstance(v, str):
            return Val.str(self.ctx.lit(v))
        if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], z3.ExprRef):
            return Val.str(v.pieces[0])
        if isinstance(v, SRef):
            return z3.If(v.t == 0, Val.none, Val.ref(v.t))
        return None

    def apps(self, a, b, why):
        if a.name != b.name or len(a.args) != len(b.args):
            return self.mismatch(f"{why}: {a.name} against {b.name}")
        for n, (x, y) in enumerate(zip(a.args, b.args)):
            self.eq(x, y, f"{why}:{a.name}.{n}")

    # ---- strings
    def strings(self, pa, pb, why):
        while pa or pb:
            if not pa or not pb:
                rest = pa or pb
                for p in rest:
                    self.empty_piece(p, why)
                return
            x, y = pa[0], pb[0]
            if isinstance(x, Cond) or isinstance(y, Cond):
                if self.conds(x, y, "str", why, pa, pb):
                    continue
                return
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return self.differs(f"{why}: text {x[:60]!r} against {y[:60]!r}")
                self.cut(pa, n)
                self.cut(pb, n)
                continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if not x.eq(y):
                    self.goal(x == y, f"{why}: part")
                pa.pop(0), pb.pop(0)
                continue
            if isinstance(x, App) and isinstance(y, App):
                self.apps(x, y, why)
                pa.pop(0), pb.pop(0)
                continue
            if isinstance(x, Fold) and isinstance(y, Fold):
                if self.try_fold(x, y, "str", why, pa, pb):
                    continue
            if isinstance(x, Fold) and self.fold_empty(x):
                pa.pop(0)
                continue
            if isinstance(y, Fold) and self.fold_empty(y):
                pb.pop(0)
                continue
            if len(pa) == 1 and len(pb) == 1 and {type(x), type(y)} & {str}:
                t, s = (x, y) if isinstance(y, str) else (y, x)
                if isinstance(t, z3.ExprRef):
                    self.goal(self.ip.term_is_lit(t, s), why)
                    return
            if isinstance(x, z3.ExprRef) and not self.possible(self.ip.f(self.ip.nonempty_term(x))):
                pa.pop(0)
                continue
            if isinstance(y, z3.ExprRef) and not self.possible(self.ip.f(self.ip.nonempty_term(y))):
                pb.pop(0)
                continue
            # a term that is a known literal on this path
            if isinstance(x, z3.ExprRef) and isinstance(y, str):
                s = self.known_lit(x, y)
                if s is not None:
                    pa[0] = s
                    continue
            if isinstance(y, z3.ExprRef) and isinstance(x, str):
                s = self.known_lit(y, x)
                if s is not None:
                    pb[0] = s
                    continue
            return self.mismatch(f"{why}: text shapes differ: {x!r} against {y!r}")

    def known_lit(self, t, hint):
        for s in list(self.ip.world.lits):
            if s and (hint.startswith(s) or s.startswith(hint)):
                f = self.ip.f(self.ip.term_is_lit(t, s))
                if self.ctx.check(z3.Not(f), timeout=2000) == z3.unsat:
                    return s
        return None

    def cut(self, ps, n):
        ps[0] = ps[0][n:]
        if not ps[0]:
            ps.pop(0)

    def empty_piece(self, p, why):
        if isinstance(p, str):
            if p:
                self.differs(f"{why}: additional text {p[:60]!r}")
        elif isinstance(p, z3.ExprRef):
            self.goal(z3.Not(self.ip.f(self.ip.nonempty_term(p))), f"{why}: additional text")
        elif isinstance(p, Fold):
            if not self.fold_empty(p):
                self.nonempty_goal(p, why)
        else:
            return self.mismatch(f"{why}: additional {p!r}")

    def nonempty_goal(self, p, why):
        i = z3.Int(f"p!{self.ctx.stamp()}")
        fs = [z3.And(i >= 0, i < p.base.length, subst(c, [(p.idx, i)])) for c, d in p.cases if d]
        with self.scope():
            self.ctx.assume(z3.Or(fs))
            self.goal(False, f"{why}: additional elements", refutable=any(
                all(isinstance(x, (E, str)) and x for x in d) for c, d in p.cases if d))

    def fold_empty(self, fo):
        i = z3.Int(f"p!{self.ctx.stamp()}")
        for c, d in fo.cases:
            if not d:
                continue
            if self.ctx.check(z3.And(i >= 0, i < fo.base.length, subst(c, [(fo.idx, i)])), timeout=4000) != z3.unsat:
                if all(isinstance(x, Fold) for x in d):
                    with self.scope():
                        self.ctx.assume(z3.And(i >= 0, i < fo.base.length, subst(c, [(fo.idx, i)])))
                        if all(self.fold_empty(subst(x, [(fo.idx, i)])) for x in d):
                            continue
                return False
        return True

    # ---- lists
    def lists(self, ia, ib, why):
        n = 0
        while ia or ib:
            if not ia or not ib:
                for p in ia or ib:
                    if isinstance(p, E):
                        self.differs(f"{why}: additional element")
                    elif isinstance(p, Fold):
                        if not self.fold_empty(p):
                            self.nonempty_goal(p, why)
                    else:
                        return self.mismatch(f"{why}: additional {p!r}")
                return
            x, y = ia[0], ib[0]
            if isinstance(x, Cond) or isinstance(y, Cond):
                if self.conds(x, y, "list", why, ia, ib):
                    continue
                return
            if isinstance(x, E) and isinstance(y, E):
                self.eq(x.v, y.v, f"{why}[{n}]")
                ia.pop(0), ib.pop(0)
                n += 1
                continue
            if isinstance(x, Fold) and isinstance(y, Fold):
                if self.try_fold(x, y, "list", why, ia, ib):
                    n += 1
                    continue
            if isinstance(x, Fold) and self.fold_empty(x):
                ia.pop(0)
                continue
            if isinstance(y, Fold) and self.fold_empty(y):
                ib.pop(0)
                continue
            return self.mismatch(f"{why}: list shapes differ: {x!r} against {y!r}")

    def conds(self, x, y, kind, why, ia, ib):
        """conditional parts: case by case when both sides have one, otherwise
        the comparison is split on which case holds (False: done)"""
        if isinstance(x, Cond) and isinstance(y, Cond):
            try:
                self.fold_eq(x, y, kind, why)
                ia.pop(0), ib.pop(0)
                return True
            except NotProved:
                pass
        side = 0 if isinstance(x, Cond) else 1
        c = (x, y)[side]
        for cond, d in c.cases:
            if self.ctx.feasible(cond) == z3.unsat:
                continue
            try:
                with self.scope():
                    self.ctx.assume(cond)
                    a, b = list(ia), list(ib)
                    s = (a, b)[side]
                    s[0:1] = list(d)
                    (self.strings if kind == "str" else self.lists)(norm(a) if kind == "str" else a, norm(b) if kind == "str" else b, why)
            except NotProved:
                if self.ctx.check(cond, timeout=2000) != z3.unsat:
                    raise
        return False

    def try_fold(self, x, y, kind, why, ia, ib):
        """compare two folds; True when both were consumed (or one dropped)"""
        r = self.ctx.check(x.base.length != y.base.length, timeout=self.timeout)
        if r != z3.unsat:
            if self.fold_empty(x):
                ia.pop(0)
                return True
            if self.fold_empty(y):
                ib.pop(0)
                return True
            self.goal(x.base.length == y.base.length, f"{why}: number of elements", refutable=False)
        self.fold_eq(x, y, kind, why)
        ia.pop(0), ib.pop(0)
        return True

    def fold_eq(self, x, y, kind, why):
        if x is y:
            return
        i = z3.Int(f"p!{self.ctx.stamp()}")
        with self.scope():
            self.ctx.assume(i >= 0)
            self.ctx.assume(i < x.base.length)
            ca = [(subst(c, [(x.idx, i)]), d) for c, d in x.cases if d]
            cb = [(subst(c, [(y.idx, i)]), d) for c, d in y.cases if d]
            if not getattr(x, "total", False) or len(ca) != len(x.cases):
                ca.append((z3.Not(z3.Or([c for c, _ in ca])) if ca else z3.BoolVal(True), ()))
            if not getattr(y, "total", False) or len(cb) != len(y.cases):
                cb.append((z3.Not(z3.Or([c for c, _ in cb])) if cb else z3.BoolVal(True), ()))
            # cases of one fold exclude each other: a case that both have in
            # the same words meets no other
            sa, sb = [z3.simplify(c) for c, _ in ca], [z3.simplify(c) for c, _ in cb]
            twin = {}
            for n, c in enumerate(sa):
                m = [k for k, c2 in enumerate(sb) if c2.eq(c)]
                if len(m) == 1 and m[0] not in twin.values():
                    twin[n] = m[0]
            for n1, (c1, d1) in enumerate(ca):
                for n2, (c2, d2) in enumerate(cb):
                    if not d1 and not d2:
                        continue
                    if n1 in twin and twin[n1] != n2 or n1 not in twin and n2 in twin.values():
                        continue
                    both = c1 if n1 in twin else z3.And(c1, c2)
                    a = subst(d1, [(x.idx, i)])
                    b = subst(d2, [(y.idx, i)])
                    if len(a) == len(b) and all(type(p) is type(q) and self.ip.same_value(p, q) for p, q in zip(a, b)):
                        continue
                    if self.ctx.feasible(both) == z3.unsat:
                        continue
                    try:
                        with self.scope():
                            self.ctx.assume(both)
                            (self.strings if kind == "str" else self.lists)(list(a), list(b), f"{why}[*]")
                    except NotProved:
                        if self.ctx.check(both, timeout=2000) != z3.unsat:
                            raise

    # ---- sets, dicts
    def sets(self, a, b, why):
        self.subset(a.items, b, f"{why}: element missing on the other side")
        self.subset(b.items, a, f"{why}: element missing")

    def subset(self, items, other, why):
        for it in items:
            if isinstance(it, E):
                self.goal(self.ip.member(it.v, other), why)
            elif isinstance(it, Fold):
                i = z3.Int(f"p!{self.ctx.stamp()}")
                with self.scope():
                    self.ctx.assume(z3.And(i >= 0, i < it.base.length))
                    for c, d in it.cases:
                        if not d:
                            continue
                        c = subst(c, [(it.idx, i)])
                        if not self.possible(c):
                            continue
                        with self.scope():
                            self.ctx.assume(c)
                            self.subset(subst(d, [(it.idx, i)]), other, why)
            else:
                return self.mismatch(why)

    def dicts(self, a, b, why):
        if all(isinstance(i, E) for i in a.items) and all(isinstance(i, E) for i in b.items) and len(a.items) == len(b.items):
            used = set()
            order = []
            for i in a.items:
                for n, j in enumerate(b.items):
                    if n not in used and self.ip.eq(i.v[0], j.v[0]) is True:
                        used.add(n)
                        order.append((i, j))
                        break
                else:
                    break
            if len(order) == len(a.items):
                for i, j in order:
                    self.eq(i.v[1], j.v[1], f"{why}[{i.v[0]!r}]")
                return
        if (log_entries(a.items) or log_entries(b.items)) and only_sets(a.items) and only_sets(b.items):
            for x, y in ((a, b), (b, a)):
                self.every(x.items, lambda e: self.goal(self.ip.member_items(e.args[0], y.items, True), f"{why}: key"))
                self.every(x.items, lambda e: e.name == "set-entry" or self.goal(self.ip.f(self.ip.exists_item(y.items, lambda o: (
                    False if o.name == "set-entry" else self.ip.conj([self.ip.eq(e.args[0], o.args[0]), self.ip.eq(e.args[1], o.args[1])])))), f"{why}: element of a set"))
            return
        self.lists(list(a.items), list(b.items), why)

    def every(self, items, check):
        for it in items:
            if isinstance(it, E):
                check(it.v)
            elif isinstance(it, Fold):
                i = z3.Int(f"p!{self.ctx.stamp()}")
                with self.scope():
                    self.ctx.assume(z3.And(i >= 0, i < it.base.length))
                    for c, d in it.cases:
                        c = subst(c, [(it.idx, i)])
                        if d and self.possible(c):
                            with self.scope():
                                self.ctx.assume(c)
                                self.every(subst(d, [(it.idx, i)]), check)
            else:
                return self.mismatch("dict of sets")

    # ---- numeric folds
    def numfold_same(self, kind, base, i, cases, b2, i2, c2):
        ctx = self.ctx
        if not base.length.eq(b2.length) and ctx.feasible(base.length != b2.length) != z3.unsat:
            return False
        j = z3.Int(f"p!{ctx.stamp()}")
        ca = [(subst(c, [(i, j)]), subst(t, [(i, j)])) for c, t in cases]
        cb = [(subst(c, [(i2, j)]), subst(t, [(i2, j)])) for c, t in c2]
        zero = z3.IntVal(0)
        if kind in ("max", "min"):
            diff = [z3.Xor(z3.Or([c for c, _ in ca]), z3.Or([c for c, _ in cb]))]
        else:
            na, nb = z3.Not(z3.Or([c for c, _ in ca])), z3.Not(z3.Or([c for c, _ in cb]))
            diff = [z3.And(na, c, t != zero) for c, t in cb] + [z3.And(nb, c, t != zero) for c, t in ca]
        if len(ca) == len(cb) and all(z3.simplify(c).eq(z3.simplify(d)) and z3.simplify(t).eq(z3.simplify(u)) for (c, t), (d, u) in zip(ca, cb)):
            return True
        for c, t in ca:
            for d, u in cb:
                diff.append(z3.And(c, d, t != u))
        return ctx.check(z3.And(j >= 0, j < base.length, z3.Or(diff)), timeout=4000) == z3.unsat
