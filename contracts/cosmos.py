"""C13 C14 C15 C19: the COSMOS output."""
import os
import z3
from .schema import *
from .sizes import *
from pyvc.contract import Reject
from pyvc.values import SRef
from asn1_parser.generators.cosmos.generator import COSMOSGenerator
from asn1_parser.generators.cosmos import templates

GO = "asn1_parser.generators.cosmos.generator:COSMOSGenerator."
TP = "asn1_parser.generators.cosmos.templates:"


@contract("asn1_parser.asn1.grammar_elements.enumerated:Enumerated.get_states", dict(self=ref(Enumerated)), props=["C13", "C19"])
def spec_states(self):
    return [e._key for e in self._enum]


@contract(GO + "_range_subrange_data_type", dict(cls=("const", COSMOSGenerator), c_type=("enum", TypeEnum, False), begin=NUMVAL, end=NUMVAL), props=["C13"])
def spec_limits(cls, c_type, begin, end):
    if c_type is TypeEnum.A_FLOAT:
        if begin > -3.4e38 or end < 3.4e38:
            return RedYellowRange(begin, begin, end, end)
    if c_type is TypeEnum.A_DOUBLE:
        if begin > -1.7976931348623157e308 or end < 1.7976931348623157e308:
            return RedYellowRange(begin, begin, end, end)
    return None


@contract(GO + "_get_definitions_recurs", dict(cls=("const", COSMOSGenerator), type_name=STR, asn1_model=optref(Asn1Module)), mode="opaque", result=lst(DEF),
          props=["C13", "C14"], soft=True)
def spec_visible(cls, type_name, asn1_model):
    """definitions of that name in the module and in the modules it imports, at any depth"""
    out = []
    if asn1_model is not None:
        for d in asn1_model._definitions:
            if d._type_name == type_name:
                out.append(d)
        for m in asn1_model._imported_modules:
            for d in spec_visible(cls, type_name, m):
                if d._type_name == type_name:
                    out.append(d)
    return list(set(out))


@contract(GO + "_get_definition", dict(cls=("const", COSMOSGenerator), type_name=STR, asn1_model=optref(Asn1Module)), mode="opaque", result=DEF,
          props=["C13", "C14"])
def spec_definition(cls, type_name, asn1_model):
    found = spec_visible(cls, type_name, asn1_model)
    if len(found) != 1:
        raise Reject
    return found[0]


@contract("spec:items", dict(definition=DEF, asn1_model=optref(Asn1Module), with_comp=lst(COMPONENT)), mode="opaque", result=lst(ref(TelemetryEntry)), assumed=True)
def spec_items(definition, asn1_model, with_comp):
    """the items of a structure; what it is is stated by items_body"""


def items_body(cls, telemetry_items_list, definition, asn1_model, with_comp):
    if not isinstance(definition, Sequence):
        raise Reject
    for k in definition._seq:
        t = k._asn_type
        nested = []
        if k._with_components is not None:
            nested = list(k._with_components._components)
        value = ""
        if with_comp:
            fixed = [c._value for c in with_comp if c._key == k._key]
            if len(fixed) == 1:
                value = fixed[0]
                if isinstance(value, WithComponents):
                    nested.extend(value._components)
        kind = t._c_type
        begin = t._begin
        end = t._end
        states = []
        if t._type_name == "INTEGER" or t._type_name == "REAL":
            pass
        elif t._type_name == "BOOLEAN":
            states = ["False", "True"]
        elif isinstance(t._type, Asn1String):
            end = t._type._length
        else:
            d = spec_definition(cls, t._type_name, asn1_model)
            if isinstance(d, SimpleDefinition):
                kind = d._asn_type._c_type
                begin = d._asn_type._begin
                end = d._asn_type._end
            elif isinstance(d, Enumerated):
                states = [e._key for e in d._enum]
                kind = TypeEnum.A_UINT
                begin = 0
                end = len(d._enum) - 1
            else:
                telemetry_items_list.extend(spec_items(d, asn1_model, nested))
                continue
        if kind is None:
            raise Reject
        bits = spec_get_bit_size(kind, begin, end)
        limits = spec_limits(cls, kind, begin, end)
        array = isinstance(t._type, Array)
        if array:
            text = str(t._type._length * bits)
        elif k._key == "application-process-identifier" and value != "":
            text = "0x" + f"{value:02X}"
        else:
            text = str(value)
        comment = ""
        unit = ""
        little = None
        if k._comment is not None:
            comment = k._comment._comment
            unit = k._comment._unit
            little = k._comment._is_little_endian
        telemetry_items_list.append(TelemetryEntry(k._key, bits, kind, text, comment, unit, limits, states, array, little))


@contract(GO + "_create_telemetry_item_data", dict(cls=("const", COSMOSGenerator), telemetry_items_list=lst(ref(TelemetryEntry)), definition=DEF, asn1_model=optref(Asn1Module),
                                                   with_comp=lst(COMPONENT)), body=items_body, merge=True,
          opaque_calls={spec_get_bit_size: INT, spec_limits: optref(RedYellowRange)}, props=["C13", "C14", "C19"])
def spec_create_items(cls, telemetry_items_list, definition, asn1_model, with_comp):
    telemetry_items_list.extend(spec_items(definition, asn1_model, [] if with_comp is None else with_comp))


@contract(TP + "cosmos_telemetry", dict(target_name=STR, target_comment=OPTSTR, pkt_name=STR, telemetry=lst(ref(TelemetryEntry))), mode="opaque", result=("strapp",), merge=True,
          props=["C13", "C14", "C19"])
def spec_packet(target_name, target_comment, pkt_name, telemetry):
    text = "TELEMETRY " + target_name + " " + pkt_name + ' BIG_ENDIAN "' + str(target_comment) + '"\n'
    for t in telemetry:
        kind = t.cosmos_type
        value = t.specific_value
        if kind is TypeEnum.A_BOOL:
            name = "UINT"
            if value == "True":
                value = "1"
            elif value == "False":
                value = "0"
        elif kind is TypeEnum.A_UINT:
            name = "UINT"
        elif kind is TypeEnum.A_INT:
            name = "INT"
        elif kind is TypeEnum.A_FLOAT or kind is TypeEnum.A_DOUBLE:
            name = "FLOAT"
        else:
            name = "STRING"
        if t.is_array:
            item = "APPEND_ARRAY_ITEM"
        elif value != "":
            item = "APPEND_ID_ITEM"
        else:
            item = "APPEND_ITEM"
        if t.is_little_endian:
            order = "LITTLE_ENDIAN"
        else:
            order = ""
        text += f'    {item:19s} {t.name:31s} {str(t.bitsize):>7s} {name:7s} {value:>7s} "{t.comment}" {order}\n'.replace(" \n", "\n")
        number = 0
        for s in t.state_list:
            text += f"        STATE {s:31s} {number}\n"
            number += 1
        r = t.red_yellow_range
        if r is not None:
            text += f"        LIMITS DEFAULT 5 ENABLED {r.range_start_red} {r.range_start_yellow} {r.range_end_yellow} {r.range_end_red}\n"
        if t.unit:
            text += f"        UNITS {t.unit} {t.unit}\n"
    return text


@contract(GO + "generate_cosmos", dict(cls=("const", COSMOSGenerator), config=ref(GenerateCosmosCommandConfig), bundle=ref(ASN1Bundle)), props=["C13"])
def spec_generate_cosmos(cls, config, bundle):
    if len(config.asn1_modules) == 0:
        raise Reject
    if len(bundle.modules) == 0:
        raise Reject
    known = {}
    module = None
    for m in bundle.modules:
        if m._module_name == config.asn1_modules[0]:
            module = m
            break
    if module is not None:
        known = {d._type_name: d for d in module._definitions}
    for n in config.asn1_messages:
        if n not in known:
            raise Reject
    text = "# This file was autogenerated from ASN.1 model.\n"
    for n in config.asn1_messages:
        d = known[n]
        comment = ""
        if d._comment is not None:
            comment = d._comment._comment
        text += "\n" + spec_packet(config.output_file_name, comment, d._type_name, spec_items(d, module, []))
    with open(os.path.join(config.output_dir, config.output_file_name + ".txt"), "a", encoding="utf-8") as f:
        f.write(text)
