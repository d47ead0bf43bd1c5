"""The listed properties in their own words, proved over the contracts of the functions (ghost clients and second contracts)."""
import z3
from .schema import *
from .sizes import *
from .ccode import spec_map_simple, CGenerator, GENS, G
from .enumeration import Given, P, setup as numbers_as_written, loops as number_loops
from asn1_parser.utils.size import get_bit_size
from asn1_parser.asn1.processor import check_enumerated

HERE = "contracts.lemmas:"


# ---- C01: the width holds every value of the range, and no smaller one does
def ghost_width(c_type, begin, end):
    bits = get_bit_size(c_type, begin, end)
    if c_type is TypeEnum.A_UINT:
        for k in range(1, 65):
            if bits == k:
                return 0 <= begin and end < 2 ** k and (k == 1 or end >= 2 ** (k - 1))
        return False
    if c_type is TypeEnum.A_INT:
        for k in (8, 16, 32, 64):
            if bits == k:
                return -2 ** (k - 1) <= begin and end < 2 ** (k - 1) and (k == 8 or begin < -2 ** (k // 2 - 1) or end >= 2 ** (k // 2 - 1))
        return False
    return True


@lemma(HERE + "ghost_width", dict(c_type=("enum", TypeEnum, False), begin=INT, end=INT),
       requires=lambda ip, v: z3.And(v["begin"].t <= v["end"].t, z3.Implies(v["c_type"].t == list(TypeEnum).index(TypeEnum.A_UINT) + 1, v["begin"].t >= 0)), props=["C01"])
def width_holds_the_range(c_type, begin, end):
    spec_get_bit_size(c_type, begin, end)
    return True


# ---- C14: the C field of a member of kind and range has the width that COSMOS gives to that kind and range
def field_of(kind, bits):
    if kind is TypeEnum.A_UINT:
        for k in range(1, 65):
            if bits == k:
                if k in (8, 16, 32, 64):
                    return "", f"uint{k}_t", False, True
                for w in (8, 16, 32, 64):
                    if k <= w:
                        return f" : {k}", f"uint{w}_t", False, True
    if kind is TypeEnum.A_INT:
        for w in (8, 16, 32, 64):
            if bits == w:
                return "", f"int{w}_t", False, True
    if kind is TypeEnum.A_FLOAT and bits == 32:
        return "", "float", False, False
    if kind is TypeEnum.A_DOUBLE and bits == 64:
        return "", "double", False, False
    if kind is TypeEnum.A_BOOL and bits == 1:
        return " : 1", "uint8_t", False, True
    return None


def _scalar(ip, v):
    """a member or simple definition of a classified INTEGER, REAL or BOOLEAN (C02)"""
    c = ip.ctx
    t = ip.read_field(v["definition"], "_asn_type")
    name, kind = ip.read_field(t, "_type_name"), ip.read_field(t, "_c_type").t
    n = lambda s: ip.f(ip.eq(name, s))
    k = lambda *ks: z3.Or([kind == list(TypeEnum).index(x) + 1 for x in ks])
    return z3.Or(z3.And(n("INTEGER"), k(TypeEnum.A_INT, TypeEnum.A_UINT)), z3.And(n("REAL"), k(TypeEnum.A_FLOAT, TypeEnum.A_DOUBLE)), z3.And(n("BOOLEAN"), k(TypeEnum.A_BOOL)))


def c_field_has_the_cosmos_width(cls, definition):
    t = definition._asn_type
    return field_of(t._c_type, spec_get_bit_size(t._c_type, t._begin, t._end))


def c_type_has_the_cosmos_width(cls, definition):
    t = definition._asn_type
    return field_of(t._c_type, spec_get_bit_size(t._c_type, t._begin, t._end))


lemma(G + "_map_simple_types_to_c", dict(cls=("const", CGenerator), definition=ref(KeyTypePair)), variants=GENS, requires=_scalar, props=["C14"])(c_field_has_the_cosmos_width)
lemma(G + "_map_simple_types_to_c", dict(cls=("const", CGenerator), definition=ref(SimpleDefinition)), variants=GENS, requires=_scalar, props=["C14"])(c_type_has_the_cosmos_width)


# ---- C14 C19: the width of an enumeration in C is the one of 0..n-1 in COSMOS, given the numbering of C04
def _numbered(ip, v):
    g = Given(ip, v["self"])
    j = z3.Int("?j")
    return z3.And(g.n >= 1, g.n <= 2 ** 64, z3.ForAll([j], z3.Implies(g.inside(j), g.pos(j) == j), patterns=[g.at(j)]))


@lemma(GE + "enumerated:Enumerated.get_size_bits", dict(self=ref(Enumerated)), requires=_numbered, props=["C14"])
def enumeration_width_agrees(self):
    return spec_get_bit_size(TypeEnum.A_UINT, 0, len(self._enum) - 1)


# ---- C04: in the model after check_enumerated, item s has number s
def ghost_numbered(model):
    check_enumerated(model)
    return all(e._pos == i for i, e in enumerate(model._enum))


@lemma(HERE + "ghost_numbered", dict(model=ref(Enumerated)), setup=numbers_as_written, soft=True, lemmas=["lemmas/Enumeration.lean"], props=["C04"])
def accepted_enumerations_are_numbered(model):
    check_enumerated(model)
    return True
