"""C05 C06: order of definitions and of modules (loops with invariants)."""
import ast
import z3
from .schema import *
from pyvc.values import *
from pyvc.ctx import contains
from pyvc.invariant import LoopInv, View, MemView, mutated_names, register, term
from pyvc.contract import Reject
from asn1_parser.generators.cfs.module_sorter import ModuleSorter
MS = "asn1_parser.generators.cfs.module_sorter:ModuleSorter."

J, K, X, T = z3.Ints("?jj ?kk ?xx ?tt")


def pure(t):
    """built from uninterpreted functions only, so usable as a pattern"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not z3.is_app(x) or x.num_args() and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        todo.extend(x.children())
    return True


def forall(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=[p for p in pats if pure(p) and all(contains(p, {v.get_id()}) for v in vs)])


def fn(ip, name, *sorts):
    return ip.ctx.func(name, *sorts)


def field(ip, cls, f):
    return lambda t: fn(ip, f"{cls}.{f}", IntS, IntS)(t)


def type_name(ip):
    return field(ip, "Definitions", "_type_name")


def is_class(ip, t, *cs):
    return z3.Or([ip.ctx.class_tag(t) == ip.world.tag(c) for c in cs])


def child(ip, cls, f):
    """(number of members, type name of member c) of a structure or union"""
    n = fn(ip, f"len!{cls}.{f}", IntS, IntS)
    at = fn(ip, f"at!{cls}.{f}", IntS, IntS, IntS)
    return n, lambda d, c: field(ip, "Asn1Type", "_type_name")(field(ip, "KeyTypePair", "_asn_type")(at(d, c))), at


def every_use(ip, d, pred):
    """every type name a definition uses satisfies pred"""
    fs = []
    for C, f in ((Sequence, "_seq"), (Choice, "_choice")):
        n, name, at = child(ip, C.__name__, f)
        fs.append(z3.Implies(is_class(ip, d, C), forall([K], z3.Implies(z3.And(0 <= K, K < n(d)), pred(name(d, K))), at(d, K))))
    return z3.And(fs)


def some_use(ip, d, pred):
    fs = []
    for C, f in ((Sequence, "_seq"), (Choice, "_choice")):
        n, name, at = child(ip, C.__name__, f)
        fs.append(z3.And(is_class(ip, d, C), z3.Exists([K], z3.And(0 <= K, K < n(d), pred(name(d, K))))))
    return z3.Or(fs)


def all_in(L, f, ok=None):
    """f(x) for every member x of the list"""
    p = L.mem(X)
    return forall([X], z3.Implies(p, f(X)), p)


def partition(B, A, N):
    return [("every element is done or to do, once", z3.And(
                all_in(B, lambda x: z3.Or(A.mem(x), N.mem(x))),
                all_in(A, lambda x: z3.And(B.mem(x), z3.Not(N.mem(x)))),
                all_in(N, lambda x: z3.And(B.mem(x), z3.Not(A.mem(x)))))),
            ("no element twice", z3.And([z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < L.len), z3.And(L.mem(L.at(J)), L.pos(L.at(J)) == J))) for L in (A, N)])),
            ("numbers add up", A.len + N.len == B.len)]


# ------------------------------------------------------------- definitions
def known_at_start(ip, vals):
    """type names known without any definition of the module"""
    m = vals["asn1_module"].t
    none = fn(ip, "none!Asn1Module._import_items", IntS, BoolS)(m)
    n = fn(ip, "len!Asn1Module._import_items", IntS, IntS)(m)
    at = fn(ip, "at!Asn1Module._import_items", IntS, IntS, IntS)
    ln = fn(ip, "len!ImportItem._definitions", IntS, IntS)
    it = fn(ip, "at!ImportItem._definitions", IntS, IntS, IntS)
    a, b = z3.Ints("?a ?b")
    return lambda t: z3.Or([t == ip.ctx.lit(x) for x in ("BOOLEAN", "INTEGER", "REAL", "IA5String", "NumericString")]
                           + [z3.And(z3.Not(none), z3.Exists([a, b], z3.And(0 <= a, a < n, 0 <= b, b < ln(at(m, a)), it(at(m, a), b) == t)))])


def start_pred(ip, vals):
    p = fn(ip, "known_at_start", IntS, IntS, BoolS)
    m = vals["asn1_module"].t
    f = known_at_start(ip, vals)
    ip.ctx.assume(z3.ForAll([T], p(m, T) == f(T), patterns=[p(m, T)]))
    return lambda t: p(m, t)


def definitions(ip, vals):
    m = vals["asn1_module"].t
    b = ip.ctx.fn_base("Asn1Module._definitions", (m,), DEF)
    return View(ip, LList(ip.ctx.ident(b)), True)


def named_before(ip, A, i, t):
    return z3.Exists([J], z3.And(0 <= J, J < i, type_name(ip)(A.at(J)) == t))


def ordered(ip, A, start):
    """a structure or union comes after the definitions it uses"""
    return z3.ForAll([X], z3.Implies(z3.And(0 <= X, X < A.len), every_use(ip, A.at(X), lambda t: z3.Or(start(t), named_before(ip, A, X, t)))))


def sort_inv(ip, vals, S):
    B, A, N, D = definitions(ip, vals), S["A"], S["N"], S["D"]
    start = start_pred(ip, vals)
    return partition(B, A, N) + [
        ("known names are those at the start and those of the done definitions",
         z3.ForAll([T], D.mem(T) == z3.Or(start(T), named_before(ip, A, A.len, T)))),
        ("done definitions come after what they use", ordered(ip, A, start))]


def sorter_loops(ip, fr, node):
    vals = ip.sort_vals
    mut, assigned = mutated_names(node.body)
    lists = {n: v for n, v in fr.vars.items() if isinstance(v, LList)}
    if isinstance(node, ast.While):
        N = [n for n, v in lists.items() if n in mut and len(v.items) == 1 and isinstance(v.items[0], Fold) and getattr(v.items[0], "ident", False)
             and v.items[0].base.name == "Asn1Module._definitions"]
        A = [n for n, v in lists.items() if n in mut and not v.items]
        D = [n for n in lists if n in mut and n not in N and n not in A]
        if [len(N), len(A), len(D)] != [1, 1, 1]:
            return None
        roles = dict(N=(N[0], DEF, True), A=(A[0], DEF, True), D=(D[0], STR, None))
        inv = LoopInv(roles, lambda S, k: sort_inv(ip, vals, S), lambda S: S["N"].len, "outer loop")
        return lambda: inv.run(ip, fr, node)
    if not ip.inv_state or ip.inv_state[-1][1] is not fr:
        return None
    outer = ip.inv_state[-1][0]
    if not {v[0] for v in outer.roles.values()} & mut:
        return None
    lst = ip.eval(node.iter, fr)
    S0 = outer.views(ip, fr)
    C = View(ip, lst)
    seen = fn(ip, f"known_before!{ip.ctx.stamp()}", IntS, BoolS)
    ip.ctx.assume(z3.ForAll([T], seen(T) == S0["D"].mem(T), patterns=[seen(T)]))

    def holds(S, k):
        N, D = S["N"], S["D"]
        still = z3.Implies(N.len == S0["N"].len, z3.And(
            z3.ForAll([T], D.mem(T) == seen(T)),
            z3.ForAll([X], N.mem(X) == S0["N"].mem(X)),
            z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k), some_use(ip, C.at(J), lambda t: z3.Not(seen(t)))))))
        return sort_inv(ip, vals, S) + [
            ("the number to do does not grow", N.len <= S0["N"].len),
            ("what was not visited is still to do", forall([J], z3.Implies(z3.And(k <= J, J < C.len), N.mem(C.at(J))), C.at(J))),
            ("without progress every visited definition waits for an unknown name", still)]
    inv = LoopInv(outer.roles, holds, None, "inner loop")
    return lambda: inv.run_for(ip, fr, node, lst, False)


def sorter_setup(ip, vals):
    ip.sort_vals = vals


def sorted_ensures(ip, vals, kind, value):
    B, start = definitions(ip, vals), start_pred(ip, vals)
    if kind == "raise":
        if not ip.inv_state:
            return [("rejected without looking at the definitions", z3.BoolVal(False))]
        inv, fr, _ = ip.inv_state[-1]
        S = inv.views(ip, fr)
        N = S["N"]
        return [("a rejected module has definitions", z3.And(N.len > 0, z3.ForAll([X], z3.Implies(N.mem(X), B.mem(X))))),
                ("each of which waits for a name that is neither known nor defined by the others",
                 z3.ForAll([X], z3.Implies(N.mem(X), some_use(ip, X, lambda t: z3.And(z3.Not(start(t)), z3.ForAll([J], z3.Implies(
                     z3.And(0 <= J, J < B.len, z3.Not(N.mem(B.at(J)))), type_name(ip)(B.at(J)) != t)))))))]
    if not isinstance(value, LList):
        return [("result is a list", z3.BoolVal(False))]
    A = View(ip, value, True)
    return [("every definition exactly once", z3.And(A.len == B.len, z3.ForAll([X], A.mem(X) == B.mem(X)),
                                                     z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < A.len), A.pos(A.at(J)) == J)))),
            ("a structure or union comes after the definitions it uses", ordered(ip, A, start))]


@contract(MS + "get_definitions_sorted_by_dependency", dict(asn1_module=ref(Asn1Module)), mode="opaque", result=lst(DEF), ensures=sorted_ensures,
          loops=sorter_loops, setup=sorter_setup, props=["C05", "C15"])
def spec_sorted_definitions(asn1_module):
    pass


# ------------------------------------------------------------------ modules
def module_name(ip):
    return field(ip, "Asn1Module", "_module_name")


def imports(ip):
    """imports(x, t): module x has an import from a module named t"""
    p = fn(ip, "imports", IntS, IntS, BoolS)
    none = fn(ip, "none!Asn1Module._import_items", IntS, BoolS)
    n = fn(ip, "len!Asn1Module._import_items", IntS, IntS)
    at = fn(ip, "at!Asn1Module._import_items", IntS, IntS, IntS)
    a = z3.Int("?a")
    ip.ctx.assume(z3.ForAll([X, T], p(X, T) == z3.And(z3.Not(none(X)), z3.Exists([a], z3.And(0 <= a, a < n(X), field(ip, "ImportItem", "_module_name")(at(X, a)) == T))),
                            patterns=[p(X, T)]))
    ip.ctx.assume(z3.ForAll([X, a], z3.Implies(z3.And(z3.Not(none(X)), 0 <= a, a < n(X)), p(X, field(ip, "ImportItem", "_module_name")(at(X, a)))),
                            patterns=[at(X, a)]))
    return p


def all_modules(ip, vals):
    v = vals.get("real_module_list")
    if v is None:
        v = LList(ip.ctx.ident(ip.ctx.fn_base("ASN1Bundle.modules", (vals["self"].t,), ref(Asn1Module))))
    return View(ip, v, True)


def unique_names(ip, vals):
    """precondition: no two modules of the same name (C07 rejects them for the C, cFS and binary outputs)"""
    nm = module_name(ip)
    if "self" in vals:
        b = ip.ctx.fn_base("ASN1Bundle.modules", (vals["self"].t,), ref(Asn1Module))
    else:
        v = vals["real_module_list"]
        if len(v.items) != 1 or not getattr(v.items[0], "ident", False):
            raise Unsupported("list of modules")
        b = v.items[0].base
    at = fn(ip, "at!" + b.name, *[a.sort() for a in b.args], IntS, IntS)
    return z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J < K, K < b.length), nm(at(*b.args, J)) != nm(at(*b.args, K))))


def importers_first(ip, B, O):
    imp, nm = imports(ip), module_name(ip)
    return z3.ForAll([J, X], z3.Implies(z3.And(0 <= J, J < O.len, B.mem(X), imp(X, nm(O.at(J)))), z3.And(O.mem(X), O.pos(X) < J)))


def module_inv(ip, vals, S):
    B, O, L, NM, IM = all_modules(ip, vals), S["O"], S["L"], S["NM"], S["IM"]
    imp, nm = imports(ip), module_name(ip)
    return partition(B, O, L) + [
        ("names belong to the modules to do", z3.And(NM.len == L.len, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < L.len), NM.at(J) == nm(L.at(J)))))),
        ("names differ", z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J < K, K < NM.len), NM.at(J) != NM.at(K)))),
        ("import names are those of the modules to do", z3.ForAll([T], IM.mem(T) == z3.Exists([J], z3.And(0 <= J, J < L.len, imp(L.at(J), T))))),
        ("importers come first", importers_first(ip, B, O))]


def module_loops(ip, fr, node):
    vals = ip.sort_vals
    if not hasattr(node, "body"):
        return None
    mut, assigned = mutated_names(node.body)
    lists = {n: v for n, v in fr.vars.items() if isinstance(v, LList)}
    if isinstance(node, ast.While):
        one = lambda v: len(v.items) == 1 and isinstance(v.items[0], Fold)
        B = all_modules(ip, vals).parts[0].base
        over = [n for n, v in lists.items() if n in mut and one(v) and v.items[0].base.name == B.name]
        L = [n for n in over if getattr(lists[n].items[0], "ident", False)]
        NM = [n for n in over if n not in L]
        O = [n for n, v in lists.items() if n in mut and not v.items]
        IM = [n for n in lists if n in assigned and n not in mut]
        if [len(x) for x in (L, NM, O, IM)] != [1, 1, 1, 1]:
            return None
        roles = dict(L=(L[0], ref(Asn1Module), True), O=(O[0], ref(Asn1Module), True), NM=(NM[0], STR, True), IM=(IM[0], STR, None))
        inv = LoopInv(roles, lambda S, k: module_inv(ip, vals, S), lambda S: S["L"].len, "outer loop")
        return lambda: inv.run(ip, fr, node)
    if not ip.inv_state or ip.inv_state[-1][1] is not fr:
        return None
    outer = ip.inv_state[-1][0]
    if not {v[0] for v in outer.roles.values()} & mut:
        return None
    it, pairs = node.iter, False
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and not it.keywords:
        it, pairs = it.args[0], True
    lst = ip.eval(it, fr)
    S0 = outer.views(ip, fr)
    seen = fn(ip, f"imported_before!{ip.ctx.stamp()}", IntS, BoolS)
    ip.ctx.assume(z3.ForAll([T], seen(T) == S0["IM"].mem(T), patterns=[seen(T)]))

    def holds(S, k):
        L, NM, IM = S["L"], S["NM"], S["IM"]
        still = z3.Implies(L.len == S0["L"].len, z3.And(
            z3.ForAll([T], IM.mem(T) == seen(T)),
            z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < NM.len), NM.at(J) == S0["NM"].at(J))),
            z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k, J < NM.len), seen(NM.at(J))))))
        return module_inv(ip, vals, S) + [("the number to do does not grow", L.len <= S0["L"].len),
                                          ("without progress every visited module is imported by one to do", still)]
    inv = LoopInv(outer.roles, holds, None, "inner loop")
    return lambda: inv.run_for(ip, fr, node, lst, pairs)


def module_setup(ip, vals):
    ip.sort_vals = vals


def modules_ensures(ip, vals, kind, value):
    B, imp, nm = all_modules(ip, vals), imports(ip), module_name(ip)
    if kind == "raise":
        if value is Reject:     # by create_ordered_import_list
            return []
        if not ip.inv_state:
            return [("rejected without looking at the modules", z3.BoolVal(False))]
        inv, fr, _ = ip.inv_state[-1]
        L = inv.views(ip, fr)["L"]
        return [("a rejected bundle has modules each of which is imported by another one of them",
                 z3.And(L.len > 0, z3.ForAll([X], z3.Implies(L.mem(X), z3.And(B.mem(X), z3.Exists([J], z3.And(0 <= J, J < L.len, imp(L.at(J), nm(X)))))))))]
    if not isinstance(value, LList):
        return [("result is a list", z3.BoolVal(False))]
    O = View(ip, value, True)
    return [("every module exactly once", z3.And(O.len == B.len, z3.ForAll([X], O.mem(X) == B.mem(X)),
                                                 z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < O.len), O.pos(O.at(J)) == J)))),
            ("a module comes before those it imports", importers_first(ip, B, O))]


@contract(MS + "create_ordered_import_list", dict(real_module_list=lst(ref(Asn1Module))), mode="ensures", result=lst(ref(Asn1Module)), ensures=modules_ensures,
          requires=unique_names, loops=module_loops, setup=module_setup, props=["C06", "C15"])
def spec_ordered_import_list(real_module_list):
    pass


@contract("asn1_parser.asn1.asn1_bundle:ASN1Bundle.get_modules_ordered", dict(self=ref(ASN1Bundle)), mode="opaque", result=lst(ref(Asn1Module)), ensures=modules_ensures,
          setup=lambda ip, vals: ip.ctx.assume(unique_names(ip, vals)), props=["C06"])
def spec_modules_ordered(self):
    pass
