"""C04: numbering of enumerations."""
import ast
import z3
from .schema import *
from pyvc.values import *
from pyvc.builtins import spec_builtin
from pyvc.invariant import LoopInv, View, mutated_names
from pyvc.contract import Reject

P = "asn1_parser.asn1.processor"
I, J, S_ = z3.Ints("?i ?j ?s")


class Given:
    """the items of the enumeration and their numbers as written (state before the call)"""

    def __init__(self, ip, model):
        c = ip.ctx
        self.n = c.func("len!Enumerated._enum", IntS, IntS)(model.t)
        self.at = lambda j: c.func("at!Enumerated._enum", IntS, IntS, IntS)(model.t, j)
        self.number = c.func("EnumeratedItem._pos", IntS, IntS)
        self.pos = lambda j: self.number(self.at(j))
        self.holder = c.func("holder_of_number", IntS, IntS, IntS)
        self.who = lambda s: self.holder(model.t, s)
        self.slot = lambda j: z3.If(self.pos(j) < 0, self.pos(j) + self.n, self.pos(j))

    def inside(self, j):
        return z3.And(0 <= j, j < self.n)

    def permutation(self):
        """every number 0..n-1 is given to exactly one item"""
        return z3.And(
            z3.ForAll([J], z3.Implies(self.inside(J), z3.And(0 <= self.pos(J), self.pos(J) < self.n)), patterns=[self.at(J)]),
            z3.ForAll([I, J], z3.Implies(z3.And(0 <= I, I < J, J < self.n), self.pos(I) != self.pos(J)), patterns=[z3.MultiPattern(self.at(I), self.at(J))]))


def total(model):
    return sum([e._pos for e in model._enum])


def triangle(model):
    return sum(i for i in range(len(model._enum)))


@spec_builtin
def is_permutation(model):
    """the numbers of the items are 0..n-1, each exactly once"""


def _is_permutation(ip, args, kwargs, node):
    return SBool(Given(ip, args[0]).permutation())


is_permutation._pyvc_impl = _is_permutation


@spec_builtin
def by_number(model):
    """the items, the one with number s at place s (for a permutation)"""


def _by_number(ip, args, kwargs, node):
    g = Given(ip, args[0])
    b = ip.ctx.fn_base(f"by_number!{ip.ctx.stamp()}", (), ref(EnumeratedItem))
    ip.ctx.assume(b.length == g.n)
    at = ip.ctx.func("at!" + b.name, IntS, IntS)
    ip.ctx.assume(z3.ForAll([J], z3.Implies(g.inside(J), at(J) == g.at(g.who(J))), patterns=[at(J)]))
    return LList(ip.ctx.ident(b), ip.ctx.stamp(), "list")


by_number._pyvc_impl = _by_number


def setup(ip, vals):
    """facts about finite permutations (proved in lemmas/Enumeration.lean), about this enumeration"""
    m = vals["model"]
    g = Given(ip, m)
    c = ip.ctx
    # the items of an enumeration are different objects (the parser makes one per item)
    index = c.func("index_of_item", IntS, IntS, IntS)
    c.assume(z3.ForAll([J], z3.Implies(g.inside(J), index(m.t, g.at(J)) == J), patterns=[g.at(J)]))
    c.assume(g.n >= 0)
    s, t = ip.num(ip.inline(total, [m], {}))[1], ip.num(ip.inline(triangle, [m], {}))[1]
    perm = g.permutation()
    wrapped = z3.And(
        z3.ForAll([J], z3.Implies(g.inside(J), z3.And(-g.n <= g.pos(J), g.pos(J) < g.n)), patterns=[g.at(J)]),
        z3.ForAll([I, J], z3.Implies(z3.And(0 <= I, I < J, J < g.n), g.slot(I) != g.slot(J)), patterns=[z3.MultiPattern(g.at(I), g.at(J))]))
    c.assume(z3.Implies(perm, s == t))                              # lemma sum_of_permutation
    c.assume(z3.Implies(z3.And(wrapped, s == t), perm))             # lemma no_negative_number
    c.assume(z3.Implies(perm, z3.ForAll([S_], z3.Implies(z3.And(0 <= S_, S_ < g.n), z3.And(     # lemma onto
        0 <= g.who(S_), g.who(S_) < g.n, g.pos(g.who(S_)) == S_)), patterns=[g.who(S_)])))
    c.assume(2 * t == g.n * (g.n - 1))                              # lemma triangle
    ip.enum_given = g, m


def loops(ip, fr, node):
    if not isinstance(node, ast.For):
        return None
    mut, assigned = mutated_names(node.body)
    slots = [n for n, v in fr.vars.items() if n in mut and isinstance(v, LList) and len(v.items) == 1 and isinstance(v.items[0], Fold)]
    if len(slots) != 1:
        return None
    lst = ip.eval(node.iter, fr)
    g, m = ip.enum_given
    if not (isinstance(lst, LList) and len(lst.items) == 1 and getattr(lst.items[0], "ident", False) and lst.items[0].base.name == "Enumerated._enum"
            and lst.items[0].base.args[0].eq(m.t)):
        return None
    from_ = ip.ctx.func(f"filled_by!{ip.ctx.stamp()}", IntS, IntS)

    def holds(S, k):
        O = S["O"]
        return [("one slot per item", O.len == g.n),
                ("every visited item is in the slot of its number", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k), z3.And(
                    k <= g.n, -g.n <= g.pos(J), g.pos(J) < g.n, O.at(g.slot(J)) == g.at(J))), patterns=[g.at(J)])),
                ("a filled slot holds a visited item of that number", z3.ForAll([S_], z3.Implies(z3.And(0 <= S_, S_ < g.n, O.at(S_) != 0), z3.Exists([J], z3.And(
                    0 <= J, J < k, g.at(J) == O.at(S_), g.slot(J) == S_)))))]
    inv = LoopInv(dict(O=(slots[0], optref(EnumeratedItem), False)), holds, None, "loop over the items")
    return lambda: inv.run_for(ip, fr, node, lst, False)


@contract(P + ":check_enumerated", dict(model=ref(Enumerated)), setup=setup, loops=loops, soft=True, lemmas=["lemmas/Enumeration.lean"], props=["C04"])
def spec_check_enumerated(model):
    if all(i._pos == 0 for i in model._enum):
        n = 0
        for i in model._enum:
            i._pos = n
            n = n + 1
    elif is_permutation(model):
        model._enum = by_number(model)
    else:
        raise Reject
