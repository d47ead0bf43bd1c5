"""Path contexts: solver, forking by re-execution, trail, substitution."""
import fractions
import time
import z3
from .values import *

import os
DUMP = os.environ.get('PYVC_DUMP')
NDUMP = 0
TIMEOUT_FEAS = 400
TIMEOUT_PROVE = 12000


class Explorer:
    def __init__(self, prefix, work, out=None):
        self.prefix, self.work, self.out = prefix, work, out
        self.taken = []
        self.conds = []     # ('branch'|'fact', z3 expr)
        self.known = set()


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0
        self.loops = 0


class DualSolver:
    """main: everything; fast: quantified parts replaced by boolean proxies
    (used to prune paths; weaker, so only unsat answers are used)"""

    def __init__(self):
        self.main = z3.Solver()
        self.main.set("random_seed", 1)
        self.fast = z3.Solver()
        self.fast.set("random_seed", 1)
        self.proxies = {}
        self.memo = {}
        self.keep = []

    def push(self):
        self.main.push()
        self.fast.push()

    def pop(self):
        self.main.pop()
        self.fast.pop()

    def add(self, *fs):
        for f in fs:
            self.main.add(f)
            self.fast.add(self.abstract(f))

    def model(self):
        return self.main.model()

    def abstract(self, f):
        k = f.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(f)
        if z3.is_quantifier(f):
            q = (f.is_forall(), f.is_lambda(), tuple(f.var_sort(n).name() for n in range(f.num_vars())), f.body().get_id())
            if q not in self.proxies:
                self.keep.append(f.body())
                self.proxies[q] = z3.Bool(f"proxy!{len(self.proxies)}")
            r = self.proxies[q]
        elif not z3.is_app(f) or f.num_args() == 0:
            r = f
        else:
            cs = f.children()
            ns = [self.abstract(c) for c in cs]
            if all(a.eq(b) for a, b in zip(cs, ns)):
                r = f
            elif z3.is_and(f):
                r = z3.And(ns)
            elif z3.is_or(f):
                r = z3.Or(ns)
            elif z3.is_not(f):
                r = z3.Not(ns[0])
            else:
                r = f.decl()(*ns)
        self.memo[k] = r
        self.keep.append(r)
        return r


class Ctx:
    def __init__(self, world):
        self.world = world
        self.solver = DualSolver()
        self.stack = []
        self.trail = []
        self.idx = []
        self.counter = 0
        self.nholes = 0
        self.stats = Stats()
        self.deadline = None
        self.funcs = {}

    # -- fresh names / terms
    def stamp(self):
        self.counter += 1
        return self.counter

    def func(self, name, *sorts):
        key = (name, tuple(s.name() for s in sorts))
        f = self.funcs.get(key)
        if f is None:
            f = self.funcs[key] = z3.Function(name, *sorts)
        return f

    def fresh(self, name, sort):
        n = f"{name}!{self.stamp()}"
        self.world.freshnames.add(n)
        if self.idx:
            return z3.Function(n, *([IntS] * len(self.idx)), sort)(*self.idx)
        return z3.Const(n, sort)

    def skolem(self, kind, sort, key):
        """constant determined by the formula `key` (as a function of the loop
        indices in it): the same formula always gives the same symbol"""
        args = [x for x in self.idx if contains(key, {x.get_id()})]
        k = z3.simplify(zsub(key, [(x, z3.Int(f"ix!{n}")) for n, x in enumerate(args)])) if args else z3.simplify(key)
        known = self.world.skolems.get((kind, len(args), k.get_id()))
        if known is None:
            name = f"{kind}!u{len(self.world.skolems)}"
            known = self.world.skolems[(kind, len(args), k.get_id())] = (name, k)
            self.world.freshnames.add(name)
        if args:
            return z3.Function(known[0], *([IntS] * len(args)), sort)(*args)
        return z3.Const(known[0], sort)

    def lit(self, s):
        return z3.IntVal(self.world.strlit(s))

    def mk(self, typ, name, args=()):
        """value of the given type, as function `name` of the index terms"""
        k = typ[0]
        dom = [a.sort() for a in args]

        def term(sort, nm=name):
            return self.func(nm, *dom, sort)(*args) if args else z3.Const(nm, sort)
        if k == "const":
            return typ[1]
        if k == "int":
            return SInt(term(IntS))
        if k == "nat":
            t = term(IntS)
            self.assume(t >= 0)
            return SInt(t)
        if k == "real":
            return SReal(term(RealS))
        if k == "bool":
            return SBool(term(BoolS))
        if k == "str":
            return SStr((term(IntS),))
        if k == "optstr":   # a str-typed field that may also be None
            t = term(Val)
            self.assume_val(t, [("none",), ("str",)])
            return SVal(t, [("none",), ("str",)])
        if k == "enum":
            t = term(IntS)
            n = len(list(typ[1]))
            self.assume(z3.And(t >= (0 if typ[2] else 1), t <= n))
            return SEnum(t, typ[1])
        if k == "ref":
            t = term(IntS)
            self.assume_type(t, typ)
            return SRef(t, typ[1])
        if k == "val":
            t = term(Val)
            self.assume_val(t, typ[1])
            return SVal(t, typ[1])
        if k in ("list", "set"):
            b = self.fn_base(name, args, typ[1])
            return LList(self.ident(b), self.stamp(), k)
        if k == "map":
            return SMap(name, args, typ[1], typ[2])
        if k == "dict":     # one entry per key
            b = self.fn_base(name, args, ("tuple", [typ[1], typ[2]]))
            x, y = z3.Ints("q!dj q!dk")
            key = lambda j: self.base_elem(b, j)[0].pieces[0]
            self.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < b.length), key(x) != key(y))))
            return LDict(self.ident(b), self.stamp())
        if k == "obj":
            o = Obj(typ[1], self.stamp())
            o.fields.update({f: self.mk(t, f"{name}.{f}", args) for f, t in typ[2].items()})
            return o
        if k == "tuple":
            return tuple(self.mk(t, f"{name}.{n}", args) for n, t in enumerate(typ[1]))
        raise Unsupported(f"type {typ}")

    def class_tag(self, t):
        return self.func("class", IntS, IntS)(t)

    def type_facts(self, t, typ):
        tags = [self.world.tag(c) for c in typ[1]]
        f = z3.And(t != 0, z3.Or([self.class_tag(t) == g for g in tags]))
        if typ[2]:
            f = z3.Or(t == 0, f)
        return [f] + [ax(self, t) for ax in typ[3:]]

    def assume_type(self, t, typ):
        for f in self.type_facts(t, typ):
            self.assume(f)

    def assume_val(self, t, types):
        alts = []
        for ty in types:
            if ty[0] == "ref":
                o = Val.o(t)
                alts.append(z3.And(Val.is_ref(t), o != 0, z3.Or([self.class_tag(o) == self.world.tag(c) for c in ty[1]])))
            else:
                alts.append(getattr(Val, "is_" + ty[0])(t))
        self.assume(z3.Or(alts))

    def fn_base(self, name, args, elem_type):
        args = tuple(args)
        ln = self.func("len!" + name, *[a.sort() for a in args], IntS)(*args) if args else z3.Const("len!" + name, IntS)
        self.assume(ln >= 0)
        return Base(self, "fn", name, args, ln, elem_type)

    def base_elem(self, b, i):
        if b.kind == "fn":
            return self.mk(b.elem_type, "at!" + b.name, b.args + (i,))
        if b.kind == "app":
            return SStr((App("elem", (b.name, b.args, SInt(i))),))
        if b.kind == "range":
            return SInt(b.args[0] + i)
        if b.kind == "slice":
            return self.base_elem(b.args[0], i)
        raise Unsupported(f"elements of {b}")

    def ident(self, b):
        i = z3.Int(f"i!{self.stamp()}")
        self.idx.append(i)
        try:
            ex = Explorer([], [])       # typing facts of the generic element
            self.stack.append(ex)
            self.solver.push()
            v = self.base_elem(b, i)
        finally:
            self.solver.pop()
            self.stack.pop()
            self.idx.pop()
        fo = IFold(b, i, [(z3.And([c for _, c in ex.conds]) if ex.conds else z3.BoolVal(True), (E(v),))])
        fo.total = fo.ident = True
        return (fo,)

    # -- assumptions and decisions
    def define(self, f):
        """fact that holds whatever the path (it defines a fresh symbol)"""
        self.assume(f, "def")

    def assume(self, f, kind="fact"):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        if z3.is_true(f):
            return
        key = f.get_id()
        for ex in self.stack:
            if key in ex.known:
                return
        self.solver.add(f)
        if self.stack:
            self.stack[-1].known.add(key)
            self.stack[-1].conds.append((kind, f))
        self._keep(f)

    def _keep(self, f):
        # keep the AST alive so ids are not reused
        self.world.keep.append(f)

    def check(self, *extra, timeout=TIMEOUT_FEAS):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        t0 = time.time()
        r = self._fast(extra, min(timeout, TIMEOUT_FEAS))
        if r != z3.unsat:
            if self.deadline:
                timeout = max(50, min(timeout, int(1000 * (self.deadline - time.time()))))
            self.solver.main.set("timeout", timeout)
            r = self.solver.main.check(*extra)
            if r == z3.unknown and DUMP:
                s2 = z3.Solver()
                s2.add(self.solver.main.assertions())
                s2.add(*extra)
                global NDUMP
                NDUMP += 1
                open(f"{DUMP}/q{NDUMP}_{timeout}.smt2", "w").write(s2.to_smt2())
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r

    def _fast(self, extra, timeout):
        self.solver.fast.set("timeout", timeout)
        return self.solver.fast.check(*[self.solver.abstract(e) if not isinstance(e, bool) else z3.BoolVal(e) for e in extra])

    def feasible(self, *extra):
        """False only if impossible"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        t0 = time.time()
        r = self._fast(extra, TIMEOUT_FEAS)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r

    def decide(self, cond):
        """fork on a condition; returns a Python bool"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def choose(self, options):
        """fork over mutually exclusive, exhaustive options"""
        ex = self.stack[-1]
        n = len(ex.taken)
        forced = False
        if n < len(ex.prefix):
            pick = ex.prefix[n]
            if pick < 0:
                pick = -1 - pick
                forced = True
        else:
            feas = []
            for j, o in enumerate(options):
                if len(options) == 2 and j == 1 and not feas:
                    feas.append(1)      # the other one is impossible
                    break
                if self.feasible(o) != z3.unsat:
                    feas.append(j)
            if not feas:
                raise Infeasible()
            pick = feas[0]
            for j in feas[1:]:
                ex.work.append(ex.taken + [j])
            if len(feas) > 1:
                self.stats.forks += 1
            else:
                forced = True
        # a forced choice follows from what is known: nothing to add
        ex.taken.append(-1 - pick if forced else pick)
        if forced:
            return pick
        o = options[pick]
        if not isinstance(o, bool) and not z3.is_true(o):
            self.solver.add(o)
            ex.conds.append(("branch", o))
            self._keep(o)
        return pick

    def side_raise(self, cond, exc):
        """the paths on which cond holds end here with exc (recorded without
        running them again); the current one goes on.  False: no exploration
        to record it in"""
        ex = self.stack[-1] if self.stack else None
        if ex is None or ex.out is None:
            return False
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return True
        if z3.is_true(cond):
            raise exc
        n = len(ex.taken)
        if n < len(ex.prefix):
            code = ex.prefix[n]
        elif self.feasible(cond) == z3.unsat:
            code = -1
        elif self.feasible(z3.Not(cond)) == z3.unsat:
            code = 1
        else:
            code = 0
            ex.out.append((ex.conds + [("branch", cond)], ("raise", exc), {}))
            self._keep(cond)
        ex.taken.append(code)
        if code == 1:
            raise exc
        if code == 0:
            o = z3.Not(cond)
            self.solver.add(o)
            ex.conds.append(("branch", o))
            self._keep(o)
        return True

    def explore(self, run, assume=(), idx=None, capture=None, limit=4000, side=False, start=None):
        """run all paths of run() from the current state; the state is restored
        after each.  Returns [(conds, outcome, captured)]"""
        work = [[]]
        out = []
        # every path counts from the same number: what paths have in common
        # gets the same fresh names
        c0 = top = self.counter
        while work:
            self.counter = c0
            prefix = work.pop()
            mark = len(self.trail)
            self.solver.push()
            ex = Explorer(prefix, work, out if side else None)
            self.stack.append(ex)
            nidx = len(self.idx)
            if idx is not None:
                self.idx.append(idx)
            try:
                for a in assume:
                    self.assume(a)
                try:
                    outcome = ("next", run())
                except BreakSig:
                    outcome = ("break", None)
                except ContinueSig:
                    outcome = ("next", None)
                except ReturnSig as r:
                    outcome = ("return", r.value)
                except PyRaise as r:
                    outcome = ("raise", r)
                cap = capture(mark) if capture else None
                if start is not None:       # what the path made, as it is now
                    memo = {}
                    outcome = (outcome[0], snap(outcome[1], start, memo))
                    cap = {k: snap(v, start, memo) for k, v in cap.items()}
                out.append((ex.conds, outcome, cap))
                self.stats.paths += 1
                if len(out) > limit:
                    raise Unsupported("too many paths")
            except Infeasible:
                pass
            finally:
                del self.idx[nidx:]
                self.undo(mark)
                self.stack.pop()
                self.solver.pop()
                top = max(top, self.counter)
        self.counter = top
        return out

    # -- trail of mutable locations
    # loc: (kind, container, name); kind var/fld/items/glob
    def setloc(self, loc, value):
        old = self.getloc(loc)
        self.trail.append((loc, old))
        self._put(loc, value)

    def getloc(self, loc):
        kind, cont, name = loc
        if kind == "var":
            return cont.vars.get(name, UNBOUND)
        if kind == "fld":
            return cont.fields.get(name, UNBOUND)
        if kind == "items":
            return cont.items
        raise AssertionError(loc)

    def _put(self, loc, value):
        kind, cont, name = loc
        if kind == "var":
            if value is UNBOUND:
                cont.vars.pop(name, None)
            else:
                cont.vars[name] = value
        elif kind == "fld":
            if value is UNBOUND:
                cont.fields.pop(name, None)
            else:
                cont.fields[name] = value
        elif kind == "items":
            cont.items = value

    def undo(self, mark):
        while len(self.trail) > mark:
            loc, old = self.trail.pop()
            self._put(loc, old)


def snap(v, start, memo):
    """copies of the mutable objects made since `start` (they change back when
    the path is undone); the copies can no longer be changed"""
    if isinstance(v, (LList, LDict)):
        if v.stamp < start:
            return v
        if id(v) not in memo:
            n = LList((), v.stamp, v.kind, v.home or ("frozen",)) if isinstance(v, LList) else LDict((), v.stamp, v.home or ("frozen",))
            memo[id(v)] = (n, v)
            n.items = tuple(snap(i, start, memo) for i in v.items)
        return memo[id(v)][0]
    if isinstance(v, Obj):
        if v.stamp < start:
            return v
        if id(v) not in memo:
            n = Obj(v.cls, v.stamp)
            n.frozen = True
            memo[id(v)] = (n, v)
            n.fields = {k: snap(x, start, memo) for k, x in v.fields.items()}
        return memo[id(v)][0]
    if isinstance(v, tuple):
        if len(v) == 3 and isinstance(v[0], str) and v[0] in ("var", "fld", "items"):
            return v            # a location
        r = tuple(snap(i, start, memo) for i in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    if isinstance(v, E):
        x = snap(v.v, start, memo)
        return v if x is v.v else E(x)
    if isinstance(v, Fold):
        return v.copy(v.base, [(c, snap(d, start, memo)) for c, d in v.cases])
    if isinstance(v, App):
        return App(v.name, snap(v.args, start, memo))
    if isinstance(v, SStr):
        return SStr(tuple(snap(p, start, memo) for p in v.pieces))
    return v


def contains(e, consts):
    """does the z3 term mention one of the constants (by id)?"""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in consts or z3.is_app(x) and x.decl().name() in consts:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def mentions(v, consts):
    if isinstance(v, z3.ExprRef):
        return contains(v, consts)
    if isinstance(v, (SInt, SReal, SBool, SEnum, SRef, SVal)):
        return contains(v.t, consts)
    if isinstance(v, SStr):
        return any(mentions(p, consts) for p in v.pieces)
    if isinstance(v, (LList, LDict)):
        return any(mentions(p, consts) for p in v.items)
    if isinstance(v, (tuple, list)):
        return any(mentions(p, consts) for p in v)
    if isinstance(v, E):
        return mentions(v.v, consts)
    if isinstance(v, Fold):
        return mentions(v.base, consts) or any(mentions(c, consts) or mentions(d, consts) for c, d in v.cases)
    if isinstance(v, Base):
        return any(mentions(a, consts) for a in v.args) or mentions(v.length, consts)
    if isinstance(v, App):
        return any(mentions(a, consts) for a in v.args)
    if isinstance(v, Obj):
        return any(mentions(a, consts) for a in v.fields.values())
    if isinstance(v, SMap):
        return any(mentions(a, consts) for a in v.args)
    if isinstance(v, SetDiff):
        return mentions(v.a, consts) or mentions(v.b, consts)
    if isinstance(v, CounterVal):
        return mentions(v.lst, consts)
    return False


def has_prev(v, locs=None):
    if isinstance(v, PrevSeg):
        return True
    if isinstance(v, SStr):
        return any(has_prev(p) for p in v.pieces)
    if isinstance(v, (LList, LDict)):
        return any(has_prev(p) for p in v.items)
    if isinstance(v, (tuple, list)):
        return any(has_prev(p) for p in v)
    if isinstance(v, E):
        return has_prev(v.v)
    if isinstance(v, Fold):
        return any(has_prev(d) for _, d in v.cases)
    if isinstance(v, App):
        return any(has_prev(a) for a in v.args)
    if isinstance(v, Base):
        return any(has_prev(a) for a in v.args)
    if isinstance(v, Obj):
        return any(has_prev(a) for a in v.fields.values())
    return False


def index_consts(v):
    """loop index constants (i!..) a value mentions"""
    out, seen = [], set()

    def walk(x):
        todo = [x]
        while todo:
            y = todo.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_quantifier(y):
                todo.append(y.body())
            elif z3.is_const(y):
                if y.decl().name().startswith("i!"):
                    out.append(y)
            else:
                todo.extend(y.children())

    def go(v):
        if isinstance(v, z3.ExprRef):
            walk(v)
        elif isinstance(v, (SInt, SReal, SBool, SEnum, SRef, SVal)):
            walk(v.t)
        elif isinstance(v, SStr):
            go(v.pieces)
        elif isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, (LList, LDict)):
            go(v.items)
        elif isinstance(v, E):
            go(v.v)
        elif isinstance(v, App):
            go(v.args)
        elif isinstance(v, Base):
            go(v.args)
            walk(v.length)
        elif isinstance(v, Fold):
            go(v.base)
            for c, d in v.cases:
                go(c)
                go(d)
        elif isinstance(v, Obj):
            for x in v.fields.values():
                go(x)
    go(v)
    out.sort(key=lambda t: t.decl().name())
    return out


class Macro:
    """application f(x1..xn) with its definition; used as substitution"""

    def __init__(self, app, body):
        self.app, self.name = app, app.decl().name()
        self.args = app.children()
        if self.args:
            self.body = z3.substitute(body, *[(a, z3.Var(n, a.sort())) for n, a in enumerate(self.args)])
        else:
            self.body = body


def zsub(t, pairs):
    if isinstance(pairs[0], Macro):
        fs = [(m.app.decl(), m.body) for m in pairs if m.args]
        cs = [(m.app, m.body) for m in pairs if not m.args]
        if fs:
            t = z3.substitute_funs(t, *fs)
        return z3.substitute(t, *cs) if cs else t
    return z3.substitute(t, *pairs)


def subst(v, pairs, memo=None):
    """substitute z3 terms inside any value (structures are copied)"""
    if not pairs:
        return v
    if memo is None:
        memo = {}
    if isinstance(v, z3.ExprRef):
        return zsub(v, pairs)
    if isinstance(v, (SInt, SReal, SBool)):
        return type(v)(zsub(v.t, pairs))
    if isinstance(v, SEnum):
        return SEnum(zsub(v.t, pairs), v.cls)
    if isinstance(v, SRef):
        return SRef(zsub(v.t, pairs), v.classes)
    if isinstance(v, SVal):
        return SVal(zsub(v.t, pairs), v.types)
    if isinstance(v, SStr):
        return SStr(tuple(subst(p, pairs, memo) for p in v.pieces))
    if isinstance(v, tuple):
        return tuple(subst(p, pairs, memo) for p in v)
    if isinstance(v, E):
        return E(subst(v.v, pairs, memo))
    if isinstance(v, Fold):
        return v.copy(subst(v.base, pairs, memo), [(subst(c, pairs, memo), subst(d, pairs, memo)) for c, d in v.cases])
    if isinstance(v, Base):
        b = Base(v.ctx, v.kind, v.name, tuple(subst(a, pairs, memo) for a in v.args), subst(v.length, pairs, memo), v.elem_type)
        return b
    if isinstance(v, App):
        return App(v.name, tuple(subst(a, pairs, memo) for a in v.args))
    if isinstance(v, (LList, LDict)):
        if id(v) in memo:
            return memo[id(v)]
        n = LList(subst(v.items, pairs, memo), v.stamp, v.kind, v.home) if isinstance(v, LList) else LDict(subst(v.items, pairs, memo), v.stamp, v.home)
        memo[id(v)] = n
        return n
    if isinstance(v, Obj):
        if id(v) in memo:
            return memo[id(v)]
        n = Obj(v.cls, v.stamp)
        n.frozen = v.frozen
        memo[id(v)] = n
        n.fields = {k: subst(x, pairs, memo) for k, x in v.fields.items()}
        return n
    if isinstance(v, SMap):
        return SMap(v.name, tuple(subst(a, pairs, memo) for a in v.args), v.kt, v.vt)
    if isinstance(v, SetDiff):
        return SetDiff(subst(v.a, pairs, memo), subst(v.b, pairs, memo))
    if isinstance(v, CounterVal):
        return CounterVal(subst(v.lst, pairs, memo))
    if isinstance(v, FuncVal):
        return FuncVal(v.fn, subst(v.self_arg, pairs, memo) if v.self_arg is not None else None, v.owner)
    return v


def _canon(js, fs):
    """bound variables get canonical names, so that equal formulas are the
    same term"""
    cs = [(j, z3.Int(f"?{n}")) for n, j in enumerate(js)]
    return [c for _, c in cs], [z3.substitute(f, *cs) for f in fs]


def Exists(js, body):
    body = z3.simplify(body)
    if z3.is_false(body):
        return body
    js, (body,) = _canon(js, [body])
    return z3.Exists(js, body)


def Forall(js, body, patterns=()):
    if not patterns:
        body = z3.simplify(body)
        if z3.is_true(body):
            return body
    js, fs = _canon(js, [body] + list(patterns))
    return z3.ForAll(js, fs[0], patterns=fs[1:])


def forall(ctx, n, f, lo=0):
    """ForAll lo <= j < n: f(j)"""
    j = z3.Int(f"q!{ctx.stamp()}")
    body = f(j)
    if isinstance(body, bool):
        body = z3.BoolVal(body)
    return Forall([j], z3.Implies(z3.And(j >= lo, j < n), body))


def exists(ctx, n, f, lo=0):
    j = z3.Int(f"q!{ctx.stamp()}")
    body = f(j)
    if isinstance(body, bool):
        body = z3.BoolVal(body)
    return Exists([j], z3.And(j >= lo, j < n, body))


def frac(x):
    f = fractions.Fraction(x)
    return z3.RatVal(f.numerator, f.denominator)
