"""C02 C03 C04 C08 C09: what the model processors accept, reject and change."""
from .schema import *
from pyvc.contract import Reject
from .sizes import *

P = "asn1_parser.asn1.processor"
PREDEFINED = ["BOOLEAN", "INTEGER", "REAL", "IA5String", "NumericString"]
DOUBLE_LIMIT = 1.7976931348623157e308


@contract(P + ":asn1_type", dict(model=ASN1TYPE), props=["C02"])
def spec_asn1_type(model):
    name = model._type_name
    begin = model._begin
    end = model._end
    if begin is not None and end is not None:
        if end < begin:
            raise Reject
    kind = None
    if name == "Uint8-t" or name == "Uint16-t" or name == "Uint32-t" or name == "Uint64-t":
        kind = TypeEnum.A_UINT
    elif name == "Int8-t" or name == "Int16-t" or name == "Int32-t" or name == "Int64-t":
        kind = TypeEnum.A_INT
    elif name == "Float":
        kind = TypeEnum.A_FLOAT
    elif name == "Double":
        kind = TypeEnum.A_DOUBLE
    elif name == "BOOLEAN":
        kind = TypeEnum.A_BOOL
    elif name == "INTEGER" and begin is not None and end is not None:
        if begin < 0:
            kind = TypeEnum.A_INT
        else:
            kind = TypeEnum.A_UINT
    elif name == "REAL" and begin is not None and end is not None:
        if -3.4e38 <= begin and end <= 3.4e38:
            kind = TypeEnum.A_FLOAT
        elif -DOUBLE_LIMIT <= begin and end <= DOUBLE_LIMIT:
            kind = TypeEnum.A_DOUBLE
        else:
            raise Reject
    elif isinstance(model._type, Asn1String):
        kind = TypeEnum.A_STRING
    model._c_type = kind


def grammar_value(ip, vals):
    """grammar: the only texts are TRUE and FALSE"""
    import z3
    from pyvc.values import Val
    v = ip.read_field(vals["model"], "_value").t
    return z3.Implies(Val.is_str(v), z3.Or(Val.s(v) == ip.ctx.lit("TRUE"), Val.s(v) == ip.ctx.lit("FALSE")))


@contract(P + ":str_to_bool", dict(model=ref(ComponentsItem)), requires=grammar_value, props=["C02"])
def spec_str_to_bool(model):
    if model._value == "TRUE":
        model._value = True
    elif model._value == "FALSE":
        model._value = False


@contract(P + ":check_posix", dict(model=ref(SimpleDefinition)), props=["C03"])
def spec_check_posix(model):
    name = model._type_name
    begin = model._asn_type._begin
    end = model._asn_type._end
    if name == "Int8-t":
        ok = begin == -128 and end == 127
    elif name == "Int16-t":
        ok = begin == -32768 and end == 32767
    elif name == "Int32-t":
        ok = begin == -2147483648 and end == 2147483647
    elif name == "Int64-t":
        ok = begin == -9223372036854775808 and end == 9223372036854775807
    elif name == "Uint8-t":
        ok = begin == 0 and end == 255
    elif name == "Uint16-t":
        ok = begin == 0 and end == 65535
    elif name == "Uint32-t":
        ok = begin == 0 and end == 4294967295
    elif name == "Uint64-t":
        ok = begin == 0 and end == 18446744073709551615
    elif name == "Float":
        ok = begin == -3.4e38 and end == 3.4e38
    elif name == "Double":
        ok = begin == -DOUBLE_LIMIT and end == DOUBLE_LIMIT
    else:
        ok = True
    if not ok:
        raise Reject


@contract(P + ":check_comment", dict(model=ref(Asn1Comment)), props=["C10", "C13", "C16", "C17", "C19"])
def spec_check_comment(model):
    """no comment holds a sign that would end or continue it in a generated file"""
    text = model._comment
    if text is not None:
        if any(sign in text for sign in ["[", "]", "--", "*/", "\\", '"']):
            raise Reject


@contract(P + ":null_exception_catch", dict(model=ref(KeyTypePair, SimpleDefinition)), props=["C03"])
def spec_null(model):
    if model._asn_type._type_name == "NULL":
        raise Reject
    if isinstance(model, SimpleDefinition):
        spec_check_posix(model)


@contract(P + ":_check_types_once_defined", dict(model=ref(Asn1Module)), props=["C08"])
def spec_known_types(model):
    names = [x for x in PREDEFINED]
    if model._import_items is not None:
        for item in model._import_items:
            for n in item._definitions:
                names.append(n)
    for d in model._definitions:
        names.append(d._type_name)
    return names


@contract(P + ":model_processor_check_used_types_defined", dict(model=ref(Asn1Module), _=("const", None)), props=["C08"])
def spec_used_types(model, _):
    names = spec_known_types(model)
    for d in model._definitions:
        if isinstance(d, Sequence):
            for m in d._seq:
                if m._asn_type._type_name not in names:
                    raise Reject
        if isinstance(d, Choice):
            for m in d._choice:
                if m._asn_type._type_name not in names:
                    raise Reject


@contract(P + ":_check_with_component",
          dict(module_name=STR, with_component=optref(WithComponents), all_sequences=lst(ref(Sequence)), type_name=STR, def_type_name=STR),
          mode="opaque", ignore_params=("module_name", "def_type_name"), props=["C09"])
def spec_with_component(module_name, with_component, all_sequences, type_name, def_type_name):
    if with_component is None:
        return
    candidates = [s for s in all_sequences if s._type_name == type_name]
    if len(candidates) == 1:
        members = candidates[0]._seq
        for c in with_component._components:
            named = [m for m in members if m._key == c._key]
            if not named:
                raise Reject
            if isinstance(c._value, WithComponents):
                spec_with_component(module_name, c._value, all_sequences, named[0]._asn_type._type_name, def_type_name)
    elif type_name not in PREDEFINED:
        raise Reject


@contract(P + ":model_processor_check_used_components_defined", dict(model=ref(Asn1Module)), props=["C09"])
def spec_used_components(model):
    sequences = [d for d in model._definitions if isinstance(d, Sequence)]
    for d in model._definitions:
        if isinstance(d, Sequence):
            for m in d._seq:
                spec_with_component(model._module_name, m._with_components, sequences, m._asn_type._type_name, d._type_name)
