"""C08 C18: linking of the modules of a bundle."""
import z3
from .schema import *
from pyvc.values import IntS
from pyvc.contract import Reject
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder

B = "asn1_parser.asn1.asn1_bundle_builder:ASN1BundleBuilder."
MODELS = ("dict", STR, ("tuple", [ref(Asn1Module), lst(STR)]))


@contract("asn1_parser.asn1.grammar_elements.asn1_module:Asn1Module.add_imported_module", dict(self=ref(Asn1Module), module=ref(Asn1Module)), props=["C08", "C18"])
def spec_add_imported(self, module):
    self._imported_modules.append(module)


@contract(B + "_filter_dependencies", dict(module=ref(Asn1Module), asn_models=MODELS), props=["C08", "C18"])
def spec_filter(module, asn_models):
    names = []
    if module._import_items is not None:
        for i in module._import_items:
            names.append(i._module_name)
    asn_models[module._module_name] = (module, names)


@contract(B + "_resolve_dependencies", dict(asn_models=MODELS), props=["C08", "C18"])
def spec_resolve_dependencies(asn_models):
    for name, (module, names) in asn_models.items():
        for n in names:
            if n not in asn_models:
                raise Reject
    for name, (module, names) in asn_models.items():
        for n in names:
            module._imported_modules.append(asn_models[n][0])


@contract(B + "_parse_for_simple_defs", dict(module=ref(Asn1Module)), props=["C17", "C18"])
def spec_simple_uses(module):
    """names of the types that members use (without the built-in ones)"""
    out = set()
    for d in module._definitions:
        if isinstance(d, Sequence):
            members = d._seq
        elif isinstance(d, Choice):
            members = d._choice
        else:
            members = []
        for k in members:
            if k._with_components is None and k._asn_type._type_name not in ["BOOLEAN", "INTEGER", "REAL", "IA5String", "NumericString"]:
                out.add(k._asn_type._type_name)
    return out


def a_tree(ip, vals):
    """the parser makes one object per piece of text, so a model is a tree: an object has one owner and one place in it"""
    c = ip.ctx
    j, k, t = z3.Ints("?tj ?tk ?tt")

    def list_of(cls, f, n=True):
        at = c.func(f"at!{cls}.{f}", IntS, IntS, IntS)
        owner, place = c.func(f"owner!{cls}.{f}", IntS, IntS), c.func(f"place!{cls}.{f}", IntS, IntS)
        c.assume(z3.ForAll([t, j], z3.And(owner(at(t, j)) == t, place(at(t, j)) == j), patterns=[at(t, j)]))
    list_of("Asn1Module", "_definitions")
    list_of("Sequence", "_seq")
    at = c.func("at!p_modules", IntS, IntS)
    place = c.func("place!p_modules", IntS, IntS)
    c.assume(z3.ForAll([j], place(at(j)) == j, patterns=[at(j)]))
    member = c.func("member_of_type", IntS, IntS)
    of_member = c.func("KeyTypePair._asn_type", IntS, IntS)
    of_array, what = c.func("Array._asn_type", IntS, IntS), c.func("Asn1Type._type", IntS, IntS)
    c.assume(z3.ForAll([t], member(of_member(t)) == t, patterns=[of_member(t)]))
    c.assume(z3.ForAll([t], z3.Implies(z3.And(what(t) != 0, c.class_tag(what(t)) == ip.world.tag(Array)), member(of_array(what(t))) == member(t)),
                       patterns=[of_array(what(t))]))
    ip.preserved = [member]


def unique_types(ip, vals):
    """no type name twice in the bundle (other bundles are rejected, C07)"""
    c = ip.ctx
    j, k, a, b = z3.Ints("?uj ?uk ?ua ?ub")
    m, d = c.func("at!p_modules", IntS, IntS), c.func("at!Asn1Module._definitions", IntS, IntS, IntS)
    n = c.func("len!Asn1Module._definitions", IntS, IntS)
    name = c.func("Definitions._type_name", IntS, IntS)
    ln = z3.Const("len!p_modules", IntS)
    return z3.ForAll([j, k, a, b], z3.Implies(
        z3.And(0 <= j, j < ln, 0 <= k, k < ln, 0 <= a, a < n(m(j)), 0 <= b, b < n(m(k)), name(d(m(j), a)) == name(d(m(k), b))), z3.And(j == k, a == b)),
        patterns=[z3.MultiPattern(d(m(j), a), d(m(k), b))])


@contract(B + "_resolve_types", dict(modules=lst(ref(Asn1Module))), setup=a_tree, requires=unique_types, props=["C18"])
def spec_resolve_types(modules):
    """a type name without a type yet is linked to the definition of that name, in members and array elements of structures"""
    known = {}
    for m in modules:
        for d in m._definitions:
            known[d._type_name] = d
    for m in modules:
        for d in m._definitions:
            if isinstance(d, Sequence):
                for k in d._seq:
                    t = k._asn_type
                    while isinstance(t._type, Array):
                        t = t._type._asn_type
                    if t._type is None:
                        t._type = known.get(t._type_name)


def a_bundle(ip, vals):
    """no module name twice (C07 rejects such bundles before they are built)"""
    c = ip.ctx
    j, k = z3.Ints("?bj ?bk")
    m = c.func("at!p_modules", IntS, IntS)
    name = c.func("Asn1Module._module_name", IntS, IntS)
    ln = z3.Const("len!p_modules", IntS)
    return z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < ln, 0 <= k, k < ln, name(m(j)) == name(m(k))), j == k), patterns=[z3.MultiPattern(m(j), m(k))])


@contract(B + "build", dict(modules=lst(ref(Asn1Module))), setup=a_tree, requires=a_bundle, opaque_calls={spec_resolve_types: ("effect",)}, props=["C07", "C08", "C17", "C18"])
def spec_build(modules):
    """the bundle holds the given modules; they are linked; every use of a type name is recorded with the module that uses it"""
    models, uses = {}, {}
    for m in modules:
        spec_filter(m, models)
    for m in modules:
        for name in spec_simple_uses(m):
            uses.setdefault(name, set()).add(m._module_name)
    spec_resolve_dependencies(models)
    spec_resolve_types(modules)
    return ASN1Bundle(modules, uses)
