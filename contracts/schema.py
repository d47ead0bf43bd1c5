"""Field types of the model classes (the data the contracts speak about)."""
from pyvc.world import World, setup_path
setup_path()
from asn1_parser.asn1.asn1_bundle import ASN1Bundle
from asn1_parser.asn1.grammar_elements.array import Array
from asn1_parser.asn1.grammar_elements.asn1_comment import Asn1Comment
from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String
from asn1_parser.asn1.grammar_elements.asn1_type import Asn1Type
from asn1_parser.asn1.grammar_elements.choice import Choice
from asn1_parser.asn1.grammar_elements.components_item import ComponentsItem
from asn1_parser.asn1.grammar_elements.definitions import Definitions
from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
from asn1_parser.asn1.grammar_elements.enumerated_item import EnumeratedItem
from asn1_parser.asn1.grammar_elements.import_item import ImportItem
from asn1_parser.asn1.grammar_elements.key_type_pair import KeyTypePair
from asn1_parser.asn1.grammar_elements.sequence import Sequence
from asn1_parser.asn1.grammar_elements.simple_definition import SimpleDefinition
from asn1_parser.asn1.grammar_elements.with_components import WithComponents
from asn1_parser.utils.size import TypeEnum
from asn1_parser.c_data import CData
from asn1_parser.containers.sequence_specification_container import SequenceSpecificationContainer
from asn1_parser.generators.cosmos.telemetry import TelemetryEntry, RedYellowRange
from asn1_parser.cli.cli_arg_parser import (
    GenerateCFSCommandConfig, GenerateCCommandConfig, GenerateBinaryCommandConfig, GenerateCosmosCommandConfig)

STR, INT, BOOL, OPTSTR = ("str",), ("int",), ("bool",), ("optstr",)


def ref(*cs):
    return ("ref", cs, False)


def optref(*cs):
    return ("ref", cs, True)


def lst(t):
    return ("list", t)


def _as_parsed(ctx, t):
    """grammar: a range has both ends, of one kind; only REAL and INTEGER carry one, so a string type has none"""
    import z3
    from pyvc.values import IntS, Val
    begin, end = ctx.func("Asn1Type._begin", IntS, Val)(t), ctx.func("Asn1Type._end", IntS, Val)(t)
    return z3.And(
        Val.is_none(begin) == Val.is_none(end), Val.is_int(begin) == Val.is_int(end),
        z3.Implies(ctx.func("Asn1Type._c_type", IntS, IntS)(t) == list(TypeEnum).index(TypeEnum.A_STRING) + 1, Val.is_none(end)))


def _no_text(ctx, t):
    """grammar and str_to_bool: a fixed value is a number, a boolean or a nested block"""
    import z3
    from pyvc.values import IntS, Val
    return z3.Not(Val.is_str(ctx.func("ComponentsItem._value", IntS, Val)(t)))


ASN1TYPE = ("ref", (Asn1Type,), False, _as_parsed)
COMPONENT = ("ref", (ComponentsItem,), False, _no_text)
DEFS = (Sequence, Choice, Enumerated, SimpleDefinition)
DEF = ref(*DEFS)
NUMVAL = ("val", [("none",), ("int",), ("real",)])

world = World()
world.ref_types[(Asn1Type,)] = ASN1TYPE
D = world.declare
D(Asn1Module, dict(_module_name=STR, _definitions=lst(DEF), _comment=optref(Asn1Comment), _comment_import=optref(Asn1Comment),
                   _import_items=("optlist", ref(ImportItem)), _imported_modules=lst(ref(Asn1Module))))
D(ImportItem, dict(_definitions=lst(STR), _module_name=STR, _comment=optref(Asn1Comment)))
D(Definitions, dict(_type_name=STR, _comment=optref(Asn1Comment)))
D(Sequence, dict(_seq=lst(ref(KeyTypePair))))
D(Choice, dict(_choice=lst(ref(KeyTypePair))))
D(Enumerated, dict(_enum=lst(ref(EnumeratedItem))))
D(SimpleDefinition, dict(_asn_type=ASN1TYPE))
D(EnumeratedItem, dict(_key=STR, _pos=INT, _comment=optref(Asn1Comment)))
D(KeyTypePair, dict(_key=STR, _asn_type=ASN1TYPE, _comment=optref(Asn1Comment), _with_components=optref(WithComponents)))
D(WithComponents, dict(_components=lst(COMPONENT), _comment=optref(Asn1Comment)))
D(ComponentsItem, dict(_key=STR, _value=("val", [("int",), ("real",), ("bool",), ("str",), ("ref", (WithComponents,))]), _comment=optref(Asn1Comment)))
D(Asn1Type, dict(_type_name=STR, _begin=NUMVAL, _end=NUMVAL, _c_type=("enum", TypeEnum, True),
                 _type=optref(Array, Asn1String, *DEFS)))
D(Array, dict(_asn_type=ASN1TYPE, _length=INT))
D(Asn1String, dict(_length=INT, _type_name=STR))
COMMENTED = ref(KeyTypePair, EnumeratedItem, ComponentsItem, WithComponents, ImportItem, Asn1Module, *DEFS)
D(Asn1Comment, dict(_comment=OPTSTR, _unit=OPTSTR, _is_little_endian=BOOL, _parent=COMMENTED))
D(ASN1Bundle, dict(modules=lst(ref(Asn1Module)), simple_def_uses=("map", STR, ("set", STR))))
D(RedYellowRange, dict(range_start_red=("real",), range_start_yellow=("real",), range_end_yellow=("real",), range_end_red=("real",)))
D(TelemetryEntry, dict(name=STR, bitsize=INT, cosmos_type=("enum", TypeEnum, False), specific_value=STR, comment=OPTSTR, unit=OPTSTR,
                       red_yellow_range=optref(RedYellowRange), state_list=lst(STR), is_array=BOOL, is_little_endian=("val", [("none",), ("bool",)])))
D(GenerateCosmosCommandConfig, dict(asn1_modules=lst(STR), asn1_messages=lst(STR), output_file_name=STR, output_dir=STR))
CONTRACTS = []


def contract(target, params, **kw):
    from pyvc.contract import Contract

    def deco(spec):
        c = Contract(target, spec, params, **kw)
        CONTRACTS.append(c)
        if c.fn is not None:
            world.contracts[c.fn.__code__] = c
        world.contracts[spec.__code__] = c
        return spec
    return deco


def lemma(target, params, **kw):
    """a second contract of a function, or one of a ghost client: proved like the others, never used at call sites"""
    from pyvc.contract import Contract

    def deco(spec):
        c = Contract(target, spec, params, **kw)
        c.name = f"{target} [{spec.__name__}]"
        CONTRACTS.append(c)
        return spec
    return deco
