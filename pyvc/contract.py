"""Contracts: a specification function per function of /repo, proved equal in
result, exceptions, model writes and file effects for all inputs; at call
sites the callee is replaced by its contract."""
import enum
import inspect
import time
import types
import z3
from .values import *
from .ctx import Ctx, subst
from .interp import Interp, Frame, IFold
from .prove import Prover, NotProved
from . import world as W


class Reject(Exception):
    """the specification demands that the input is refused (any exception)"""


class Outcome:
    def __init__(self, kind, value, heap, effects, cattrs, params):
        self.kind, self.value = kind, value
        self.heap, self.effects, self.cattrs, self.params = heap, effects, cattrs, params


def snapshot(v, memo):
    """deep copy of mutable structure (before the trail is undone)"""
    if isinstance(v, (LList, LDict)):
        if id(v) in memo:
            return memo[id(v)][0]
        n = LList((), v.stamp, v.kind, v.home) if isinstance(v, LList) else LDict((), v.stamp, v.home)
        memo[id(v)] = (n, v)
        n.items = tuple(snapshot(i, memo) for i in v.items)
        return n
    if isinstance(v, Obj):
        if id(v) in memo:
            return memo[id(v)][0]
        n = Obj(v.cls, v.stamp)
        memo[id(v)] = (n, v)
        n.fields = {k: snapshot(x, memo) for k, x in v.fields.items()}
        return n
    if isinstance(v, tuple):
        return tuple(snapshot(i, memo) for i in v)
    if isinstance(v, E):
        return E(snapshot(v.v, memo))
    if isinstance(v, Fold):
        return v.copy(v.base, [(c, snapshot(d, memo)) for c, d in v.cases])
    if isinstance(v, App):
        return App(v.name, tuple(snapshot(a, memo) for a in v.args))
    if isinstance(v, SStr):
        return SStr(tuple(snapshot(p, memo) for p in v.pieces))
    return v


class Failure:
    def __init__(self, contract, kind, why, model=None, args=None, variant=None):
        self.contract, self.kind, self.why = contract, kind, why
        self.model, self.args, self.variant = model, args, variant

    def __str__(self):
        return f"{self.contract.name}{self.variant or ''}: {self.kind}: {self.why}"


class Contract:
    """params: ordered name -> type of the verifier, or ('const', value).
    mode: 'inline' (callers see the specification body), 'opaque' (callers see
    an uninterpreted function of the arguments with result type `result`;
    needed for recursive functions), 'effect' (callers record the call itself:
    the same call has the same effect), 'strfunc' (uninterpreted on strings,
    computed on literals)."""

    def __init__(self, target, spec, params, mode="inline", result=("none",), requires=None, variants=None,
                 props=(), setup=None, note="", raises=True, ignore_params=(), preimage=None, merge=False, assumed=False,
                 ensures=None, loops=None, body=None, opaque_calls=None, soft=False, lemmas=(), frame=False):
        self.target, self.spec, self.params = target, spec, dict(params)
        self.mode, self.result, self.requires = mode, result, requires
        self.variants = variants or [{}]
        self.props, self.setup, self.note, self.raises = tuple(props), setup, note, raises
        self.ignore_params, self.preimage, self.merge, self.assumed = ignore_params, preimage, merge, assumed
        self.ensures, self.loops = ensures, loops
        self.soft = soft             # relies on invariants and lemmas: a failed proof is no refutation
        self.frame = frame           # only: the model is left as it was
        self.lemmas = tuple(lemmas)  # files with the machine-checked lemmas it uses
        self.opaque_calls = opaque_calls or {}   # specification -> result type: calls seen as an unknown function here
        self.body = body or spec     # what is verified (spec: what callers see)
        self.name = target
        self.missing = None
        try:
            self.fn = W.resolve(target)
        except Exception as e:        # renamed or removed
            self.fn = None
            self.missing = f"{type(e).__name__}: {e}"

    # ------------------------------------------------------------ call sites
    def bind(self, ip, fn, args, kwargs, node):
        """arguments by the parameter names of the contract"""
        info, vars = ip.bind_args(fn, args, kwargs, node)
        names = list(self.params)
        a = info.node.args
        real = [p.arg for p in a.args] + ([a.vararg.arg] if a.vararg else [])
        if fn.__code__ is self.spec.__code__ or set(real) == set(names):
            return [vars[n] for n in names]
        if len(real) == len(names):
            return [vars[n] for n in real]
        raise Unsupported(f"parameters of {self.name} changed")

    def apply(self, ip, fn, args, kwargs, node):
        vals = self.bind(ip, fn, args, kwargs, node)
        ip.used_contracts.add(self.name)
        if self.spec in ip.opaque_calls and ip.opaque_calls[self.spec] == ("effect",):
            from .builtins import put_effect
            put_effect(ip, App("c:" + self.spec.__name__, snapshot(tuple(vals), {})))
            return None
        if self.spec in ip.opaque_calls:
            return self.apply_opaque(ip, vals, ip.opaque_calls[self.spec])
        if self.requires is not None and self.mode != "strfunc":
            f = self.requires(ip, dict(zip(self.params, vals)))
            ip.require(f, self.name)
        if self.mode == "strfunc":
            return self.apply_str(ip, vals)
        if self.mode == "opaque":
            return self.apply_opaque(ip, vals)
        if self.mode == "ensures":
            return self.apply_ensures(ip, vals)
        if self.mode == "effect":
            from .builtins import put_effect
            put_effect(ip, App("c:" + self.spec.__name__, snapshot(tuple(vals), {})))
            return None
        old = ip.verifying, ip.verifying_depth
        try:
            return ip.inline(self.spec, vals, {}, node)
        finally:
            ip.verifying, ip.verifying_depth = old

    def apply_str(self, ip, vals):
        v = vals[-1]
        v = ip.narrow(v)
        py = lambda s: self.spec(*vals[:-1], s)
        if isinstance(v, str):
            return py(v)
        if not isinstance(v, SStr):
            raise PyRaise(AttributeError)
        nm = "f:" + self.spec.__name__
        if len(v.pieces) == 1 and isinstance(v.pieces[0], z3.ExprRef):
            from .builtins import term_func, simp
            return simp(SStr((term_func(ip, nm, v.pieces[0], py, self.preimage),)))
        return SStr((App(nm, (v,)),))

    def apply_opaque(self, ip, vals, result=None):
        result = result or self.result
        key = []
        for n, v in zip(self.params, vals):
            ty = self.params[n]
            if isinstance(ty, tuple) and ty[0] == "ref" and not ty[2]:
                if v is None:
                    raise Unsupported(f"precondition of {self.name} not established: {n} is None")
                if isinstance(v, SRef):
                    ip.require(v.t != 0, self.name)
            if n in self.ignore_params:
                continue
            # one form for equal values: the callee is one function
            if isinstance(ty, tuple) and ty[0] == "val":
                v = ip.union(v) or v
            elif isinstance(ty, tuple) and ty[0] == "enum" and isinstance(v, enum.Enum):
                v = SEnum(z3.IntVal(list(ty[1]).index(v) + 1), ty[1])
            key.append(v)
        if ip.heap.items:
            key.append(LList(ip.heap.items, 0, "heap"))
        for k in sorted(ip.classattrs.fields):
            key.append((k, ip.classattrs.fields[k]))
        e = ip.encode(tuple(key))
        if e is None:
            raise Unsupported(f"arguments of {self.name} have no closed form")
        shape, terms = e
        nm = f"c:{self.spec.__name__}:{shape}"
        ip.shapes_used.add(nm)
        if self.raises:
            ok = ip.ctx.func("ok:" + nm, *[t.sort() for t in terms], BoolS)(*terms) if terms else z3.Bool("ok:" + nm)
            ip.raise_if(z3.Not(ok), Reject)
        if result[0] == "none":
            return None
        if result[0] == "app":
            return App(nm, snapshot(tuple(key), {}))
        if result[0] == "strapp":
            return SStr((App("c:" + self.spec.__name__, snapshot(tuple(key), {})),))
        return ip.ctx.mk(result, nm, tuple(terms))

    def apply_ensures(self, ip, vals):
        """any result that satisfies the postcondition"""
        v = dict(zip(self.params, vals))
        n = ip.ctx.stamp()
        if self.raises and ip.ctx.decide(z3.Bool(f"rejects!{n}")):
            raise PyRaise(Reject)
        r = ip.ctx.mk(self.result, f"result!{n}")
        for label, f in self.ensures(ip, v, "return", r):
            ip.ctx.assume(f)
        return r

    # --------------------------------------------------------- verification
    def build_args(self, ip, variant):
        vals = {}
        for n, ty in self.params.items():
            if n in variant:
                vals[n] = variant[n]
                continue
            if callable(ty):
                vals[n] = ty(ip)
            elif ty[0] == "obj":
                vals[n] = ip.ctx.mk(ty, "p_" + n)
            elif ty[0] in ("list", "set"):
                b = ip.ctx.fn_base("p_" + n, (), ty[1])
                vals[n] = LList(ip.ident(b), ip.ctx.stamp(), ty[0], None)
            else:
                vals[n] = ip.ctx.mk(ty, "p_" + n)
        return vals

    def verify(self, world, deadline=120.0, only=None):
        """discharges the contract (of variant number `only`); returns a Result"""
        res = Result(self)
        if self.fn is None:
            res.fail("missing", f"function not found: {self.missing}")
            return res
        for variant in self.variants if only is None else [self.variants[only]]:
            world.reset()
            ctx = Ctx(world)
            ctx.deadline = time.time() + deadline
            ip = Interp(ctx, world)
            ip.merge_ifs = self.merge
            ip.opaque_calls = self.opaque_calls
            try:
                self.verify_variant(ip, ctx, variant, res)
            except Unsupported as e:
                res.fail("unsupported", str(e), variant=variant)
            except z3.Z3Exception as e:
                res.fail("unsupported", f"solver: {e}", variant=variant)
            except RecursionError:
                res.fail("unsupported", "recursion of the verifier", variant=variant)
            res.add(ctx.stats)
            res.inlined |= ip.inlined
            res.used |= ip.used_contracts
            # a counterexample is trusted only if code and specification use the same
            # uninterpreted functions (callees seen through their contracts, library
            # functions): a callee that the code inlines is not one it differs from
            if res.mine != res.theirs and not self.frame:
                for f in res.failures:
                    if f.kind == "refuted":
                        f.kind = "unknown"
            if any(f.kind == "refuted" for f in res.failures):
                break
        return res

    def verify_variant(self, ip, ctx, variant, res):
        a = ip.world.func_ast(self.fn).node.args
        real = [p.arg for p in a.args] + ([a.vararg.arg] if a.vararg else [])
        names = list(self.params)
        if set(real) != set(names) and len(real) != len(names):
            raise Unsupported("parameters changed")
        order = names if set(real) == set(names) else None

        def call_real(vals):
            if a.vararg:
                from .interp import StarArgs
                v = list(vals.values())
                return ip.call_function(self.fn, v[:-1] + [StarArgs(v[-1].items)], {})
            if order is not None:
                return ip.call_function(self.fn, [], dict(vals))
            return ip.call_function(self.fn, list(vals.values()), {})

        def run():
            mark = len(ctx.trail)
            vals = self.build_args(ip, variant)
            ip.registered = {}
            if self.setup:
                self.setup(ip, vals)
            if self.requires is not None:
                ctx.assume(ip.f(self.requires(ip, vals)))
            mark2 = len(ctx.trail)
            ip.verifying, ip.verifying_depth = self, 0
            if self.ensures is not None:
                return self.run_ensures(ip, ctx, variant, res, vals, lambda: call_real(vals))
            ip.shapes_used = res.mine
            if self.loops is not None:
                ip.inv_goals, ip.inv_state, ip.active = 0, [], self
            try:
                code = self.outcome(ip, lambda: call_real(vals), vals)
            except NotProved as e:      # an invariant
                res.fail("unknown", e.why, e.model, vals, variant, ip)
                return None
            finally:
                ip.active = None
                res.obligations += ip.inv_goals
                ip.inv_goals = 0
            ip.verifying = None
            ctx.undo(mark2)
            res.paths += 1
            if self.frame:
                self.check_frame(ip, code, res, vals, variant)
                return None
            # spec paths under the same path condition
            def run_spec():
                ip.shapes_used = res.theirs
                spec = self.outcome(ip, lambda: ip.inline(self.body, list(vals.values()), {}), vals)
                if any(f.kind == "refuted" for f in res.failures):
                    return      # only collects what the rest uses
                pr = Prover(ip)
                try:
                    res.spec_paths += 1
                    self.compare(ip, pr, code, spec)
                except NotProved as e:
                    kind = "unknown" if e.kind == "refuted" and self.soft else e.kind
                    res.fail(kind, f"{e.why}", e.model, vals, variant, ip)
                finally:
                    res.obligations += max(pr.goals, 1)
            ctx.explore(run_spec)
            return None
        try:
            ctx.explore(run)
        except StopVerify:
            pass

    def run_ensures(self, ip, ctx, variant, res, vals, thunk):
        """the outcome of the code satisfies the postcondition; the model, files
        and arguments are left alone"""
        ip.inv_goals, ip.inv_state, ip.active = 0, [], self
        before = {k: v.items for k, v in vals.items() if isinstance(v, (LList, LDict))}
        pr = Prover(ip, timeout=20000)
        try:
            try:
                v = thunk()
                kind = "return"
            except PyRaise as r:
                v, kind = r.cls, "raise"
            ip.active = None
            res.paths += 1
            res.spec_paths += 1
            for label, f in self.ensures(ip, vals, kind, v):
                pr.goal(f, label, refutable=False)
            if kind == "return":
                for k, items in before.items():
                    if vals[k].items is not items:
                        pr.mismatch(f"argument {k} is changed")
                if ip.heap.items or ip.effects.items or ip.classattrs.fields:
                    pr.mismatch("the model, a file or a class attribute is changed")
        except NotProved as e:
            res.fail("unknown", e.why, e.model, vals, variant, ip)
        finally:
            ip.active = None
            ip.verifying = None
            res.obligations += pr.goals + ip.inv_goals
        return None

    def check_frame(self, ip, code, res, vals, variant):
        res.spec_paths += 1
        pr = Prover(ip)
        try:
            if code.kind == "return":
                compare_heap(ip, pr, code.heap, ())
        except NotProved as e:
            res.fail("unknown" if e.kind == "refuted" and self.soft else e.kind, e.why, e.model, vals, variant, ip)
        finally:
            res.obligations += max(pr.goals, 1)
        if any(f.kind == "refuted" for f in res.failures):
            raise StopVerify()

    def outcome(self, ip, thunk, vals):
        try:
            v = thunk()
            kind = "return"
        except PyRaise as r:
            v, kind = r.cls, "raise"
        memo = {}
        v = snapshot(v, memo)
        return Outcome(kind, v, snapshot(ip.heap.items, memo), snapshot(ip.effects.items, memo),
                       {k: snapshot(x, memo) for k, x in ip.classattrs.fields.items()},
                       {k: snapshot(x, memo) for k, x in vals.items() if isinstance(x, (LList, LDict, Obj))})

    def compare(self, ip, pr, code, spec):
        if code.kind == "raise" or spec.kind == "raise":
            if code.kind != spec.kind:
                if code.kind == "raise":
                    pr.differs(f"raises {getattr(code.value, '__name__', code.value)} although the specification accepts the input")
                else:
                    pr.differs("accepts an input that the specification rejects")
                return
            return
        v = code.value
        if isinstance(v, GenVal):
            v = ip.gen_list(v)
        pr.eq(v, spec.value, "result")
        pr.memo.clear()
        compare_heap(ip, pr, code.heap, spec.heap)
        pr.lists(list(code.effects), list(spec.effects), "files written")
        for k in sorted(set(code.cattrs) | set(spec.cattrs)):
            if k in code.cattrs and k in spec.cattrs:
                pr.eq(code.cattrs[k], spec.cattrs[k], f"class attribute {k}")
            else:
                raise NotProved("unknown", f"class attribute {k} changed on one side")
        for k in code.params:
            pr.eq(code.params[k], spec.params[k], f"argument {k} afterwards")


def groups_of(items):
    """heap log -> {(owner, field) | ('global', name): projected log}"""
    keys = []

    def walk(its):
        for it in its:
            if isinstance(it, E):
                w = it.v
                k = (w[1], w[2]) if w[0] in "wa" else ("global", w[1])
                if k not in keys:
                    keys.append(k)
            elif isinstance(it, Fold):
                for _, d in it.cases:
                    walk(d)
            else:
                raise NotProved("unknown", "model writes of an unfinished loop")
    walk(items)

    def proj(its, k):
        out = []
        for it in its:
            if isinstance(it, E):
                w = it.v
                kk = (w[1], w[2]) if w[0] in "wa" else ("global", w[1])
                if kk == k:
                    out.append(E((w[0], w[3], w[4]) if w[0] in "wa" else (w[2],)))
            else:
                cs = [(c, proj(d, k)) for c, d in it.cases]
                if any(d for _, d in cs):
                    out.append(it.copy(it.base, cs))
        return tuple(out)
    return {k: proj(items, k) for k in keys}


def compare_heap(ip, pr, a, b):
    ga, gb = groups_of(a), groups_of(b)
    for k in list(ga) + [k for k in gb if k not in ga]:
        what = f"writes to {k[0]}.{k[1]}"
        ia, ib = list(ga.get(k, ())), list(gb.get(k, ()))
        pr.lists(ia, ib, what)


class StopVerify(Exception):
    pass


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.failures = []
        self.obligations = self.paths = self.spec_paths = 0
        self.queries = self.loops = 0
        self.solver_s = 0.0
        self.inlined, self.used = set(), set()
        self.mine, self.theirs = set(), set()

    @property
    def proved(self):
        return not self.failures and self.paths > 0 and self.spec_paths > 0 and self.obligations > 0

    def add(self, st):
        self.queries += st.queries
        self.solver_s += st.solver_s
        self.loops += st.loops

    def fail(self, kind, why, model=None, args=None, variant=None, ip=None):
        f = Failure(self.contract, kind, why, model, args, variant)
        f.ip = ip
        if len(self.failures) < 20:
            self.failures.append(f)
