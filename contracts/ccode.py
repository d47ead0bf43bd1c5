"""C10 C11 C13 C16: text of the generated C, cFS and binary output."""
import z3
from .schema import *
from .sizes import *
from .bundle import CFG
from pyvc.contract import Reject
from pyvc.values import Obj, LList, LDict, SInt
from asn1_parser.c_printer import CPrinter, HeaderType
from asn1_parser.generators.generator import Generator
from asn1_parser.generators.c.generator import CGenerator
from asn1_parser.generators.cfs.generator import CFSGenerator
from asn1_parser.generators.binary.generator import BinaryGenerator

G = "asn1_parser.generators.generator:Generator."
CP = "asn1_parser.c_printer:CPrinter."
GENS = [dict(cls=CGenerator), dict(cls=CFSGenerator), dict(cls=BinaryGenerator)]


def _cname_preimage(s):
    if "-" in s:
        return []
    out = [""]
    for ch in s:
        out = [o + x for o in out for x in (("-", "_") if ch == "_" else (ch,))]
        if len(out) > 64:
            return None
    if s == "char":
        out += ["IA5String", "NumericString"]
    return [o for o in out if o not in ("IA5String", "NumericString") or s == "char"]


@contract(CP + "asn1_to_c_style_naming", dict(cls=("const", CPrinter), name=STR), mode="strfunc", preimage=_cname_preimage,
          props=["C10", "C11", "C12", "C16", "C17", "C19"])
def spec_cname(cls, name):
    if name == "IA5String" or name == "NumericString":
        return "char"
    return name.replace("-", "_")


def cname(name):
    return spec_cname(CPrinter, name)


@contract("asn1_parser.utils.string:lowerize", dict(txt=STR), mode="strfunc", props=["C10", "C16"])
def spec_lowerize(txt):
    if txt == "":
        return ""
    return txt[:1].lower() + txt[1:]


def scalar_c(c_type, begin, end):
    """bit-field suffix, C type and whether stdint is needed, of a range"""
    bits = spec_get_bit_size(c_type, begin, end)
    if c_type is TypeEnum.A_UINT:
        if bits == 8 or bits == 16 or bits == 32 or bits == 64:
            suffix = ""
        else:
            suffix = " : " + str(bits)
        if bits <= 8:
            return suffix, "uint8_t", True
        if bits <= 16:
            return suffix, "uint16_t", True
        if bits <= 32:
            return suffix, "uint32_t", True
        return suffix, "uint64_t", True
    if c_type is TypeEnum.A_INT:
        if bits == 8:
            return "", "int8_t", True
        if bits == 16:
            return "", "int16_t", True
        if bits == 32:
            return "", "int32_t", True
        return "", "int64_t", True
    if c_type is TypeEnum.A_FLOAT:
        return "", "float", False
    if c_type is TypeEnum.A_DOUBLE:
        return "", "double", False
    return "", "bool", False


@contract(G + "_map_simple_types_to_c", dict(cls=("const", CGenerator), definition=ref(KeyTypePair, SimpleDefinition)), variants=GENS,
          mode="opaque", result=("tuple", [STR, STR, BOOL, BOOL]), ignore_params=("cls",), props=["C10", "C14"])
def spec_map_simple(cls, definition):
    if isinstance(definition, SimpleDefinition):
        t = definition._asn_type
        named = t._type_name != "BOOLEAN"
    else:
        t = definition._asn_type
        named = t._type_name == "INTEGER" or t._type_name == "REAL"
    if named:
        if t._c_type is None:
            raise Reject
        suffix, name, stdint = scalar_c(t._c_type, t._begin, t._end)
        return suffix, name, False, stdint
    if t._type_name == "BOOLEAN":
        return " : 1", "uint8_t", False, True
    if isinstance(t._type, Enumerated):
        return " : " + str(spec_type_size(t)), cname(t._type_name), False, False
    return "", cname(t._type_name), False, False


import os
import struct
import cgen


LINES = lst(STR)
CDATA = ("obj", CData, dict(_data=LINES, _define_list=LINES, _include_list=LINES, _init_list=LINES, _init_list_predef=LINES, _init_include=STR,
                            _is_stdbool_needed=BOOL, _is_stdint_needed=BOOL, _header_comment=STR, _binary_init=("dict", STR, lst(STR))))


def cdata(data=(), define_list=(), include_list=(), init_list=(), init_list_predef=(), init_include="", stdbool=False, stdint=False, binary=None):
    if binary is None:
        binary = {}
    return CData(data=list(data), define_list=list(define_list), include_list=list(include_list), init_list=list(init_list),
                 init_list_predef=list(init_list_predef), init_include=init_include, is_stdbool_needed=stdbool, is_stdint_needed=stdint,
                 header_comment="", binary_init=binary)


def doc(definition):
    c = definition._comment
    if c is not None and c._comment:
        return str(cgen.Comment(c._comment)) + "\n"
    return ""


def remark(c):
    """[unit] text"""
    text = ""
    if c._unit:
        text = "[" + c._unit + "] "
    if c._comment:
        text = text + c._comment
    return text


def trailing_remark(c):
    if c is None:
        return ""
    return "     " + str(cgen.LineComment(remark(c)))


@contract(G + "_convert_enumerated_to_c", dict(cls=("const", CGenerator), definition=ref(Enumerated)), variants=GENS,
          mode="opaque", result=CDATA, ignore_params=("cls",), props=["C19"])
def spec_enumerated_c(cls, definition):
    lines = ""
    for e in definition._enum:
        lines += "  " + cname(e._key) + " = " + str(e._pos) + "," + trailing_remark(e._comment) + "\n"
    return cdata(data=[doc(definition) + "typedef enum {\n" + lines + "} __attribute__((packed)) " + cname(definition._type_name) + ";"])


POSIX_C = ["int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t"]


@contract(G + "_convert_choice_to_c", dict(cls=("const", CGenerator), definition=ref(Choice)), variants=GENS,
          mode="opaque", result=CDATA, ignore_params=("cls",), props=["C10"])
def spec_choice_c(cls, definition):
    lines = ""
    for k in definition._choice:
        lines += "  " + cname(k._asn_type._type_name) + " " + cname(k._key) + ";" + trailing_remark(k._comment) + "\n"
    return cdata(data=[doc(definition) + "union " + cname(definition._type_name) + " {\n" + lines + "} " + spec_lowerize(cname(definition._type_name)) + ";"],
                 stdint=any(k._asn_type._type_name in POSIX_C for k in definition._choice))


# ------------------------------------------------------- WITH COMPONENTS, C
def has_components(ip, v):
    return ip.read_field(v["seq_item"], "_with_components").t != 0


GC = "asn1_parser.generators.c.generator:CGenerator."


@contract(GC + "_process_with_components", dict(cls=("const", CGenerator), with_components=ref(WithComponents), shift_level=INT),
          mode="opaque", result=("strapp",), props=["C16"])
def spec_init_members(cls, with_components, shift_level):
    if shift_level < 0:
        raise Reject
    text = ""
    for c in with_components._components:
        v = c._value
        if isinstance(v, WithComponents):
            text += shift_level * "  " + "." + cname(c._key) + " = {\n" + spec_init_members(cls, v, shift_level + 1) + shift_level * "  " + "},\n"
        elif isinstance(v, bool):
            text += shift_level * "  " + "." + cname(c._key) + " = " + ("1" if v else "0") + ",\n"
        else:
            text += shift_level * "  " + "." + cname(c._key) + " = " + str(v) + ",\n"
    return text


@contract(GC + "_process_start_with_component", dict(cls=("const", CGenerator), seq_name=STR, seq_item=ref(KeyTypePair)), requires=has_components, props=["C16"])
def spec_init(cls, seq_name, seq_item):
    return (seq_name + " " + spec_lowerize(seq_name) + " = {\n" + "  ." + cname(seq_item._key) + " = {\n"
            + spec_init_members(cls, seq_item._with_components, 2) + "  },\n" + "};\n")


@contract(GC + "get_filename", dict(cls=("const", CGenerator), module=ref(Asn1Module, ImportItem)), props=["C10", "C16", "C17"])
def spec_c_filename(cls, module):
    if isinstance(module, Asn1Module):
        return cname(module._module_name)
    return cname(module._module_name)


@contract(GC + "_with_components_handling", dict(cls=("const", CGenerator), definition_type_name_c=STR, seq_item=ref(KeyTypePair), module=optref(Asn1Module)),
          requires=has_components, props=["C16"])
def spec_c_components(cls, definition_type_name_c, seq_item, module):
    if module is None:
        raise Reject
    return cdata(init_list=[spec_init(cls, definition_type_name_c, seq_item)],
                 init_list_predef=[definition_type_name_c + " " + spec_lowerize(definition_type_name_c) + ";"],
                 init_include=str(cgen.Include(cname(module._module_name) + ".h", system=False)))


# ----------------------------------------------------- WITH COMPONENTS, cFS
GF = "asn1_parser.generators.cfs.generator:CFSGenerator."


@contract(GF + "_ccsds_primary_header_to_msg_id", dict(cls=("const", CFSGenerator), components=ref(WithComponents)), mode="opaque", result=INT, props=["C11"])
def spec_msg_id(cls, components):
    mid = 0
    for c in components._components:
        if c._key != "packet-identification":
            raise Reject
        for p in c._value._components:
            if p._key == "packet-version-number":
                mid = mid | (p._value << 13)
            elif p._key == "packet-type-is-cmd":
                mid = mid | (p._value << 12)
            elif p._key == "sec-hdr-flag-is-present":
                mid = mid | (p._value << 11)
            elif p._key == "application-process-identifier":
                mid = mid | p._value
            else:
                raise Reject
    return mid


@contract(GF + "_process_with_components", dict(cls=("const", CFSGenerator), seq_name=STR, with_components=ref(WithComponents)),
          mode="opaque", result=lst(STR), props=["C11"])
def spec_defines(cls, seq_name, with_components):
    out = []
    for c in with_components._components:
        v = c._value
        if isinstance(v, WithComponents):
            if c._key == "primary":
                out.append(str(cgen.Define(seq_name.upper() + "_MID", "(0x" + f"{spec_msg_id(cls, v):04X}" + ")")))
            else:
                for d in spec_defines(cls, seq_name, v):
                    out.append(d)
        elif isinstance(v, bool):
            out.append(str(cgen.Define((seq_name + "_" + cname(c._key)).upper(), "(true)" if v else "(false)")) + "\n")
        else:
            out.append(str(cgen.Define((seq_name + "_" + cname(c._key)).upper(), "(" + str(v) + ")")) + "\n")
    return out


@contract(GF + "_with_components_handling", dict(cls=("const", CFSGenerator), definition_type_name_c=STR, seq_item=ref(KeyTypePair), module=optref(Asn1Module)),
          requires=has_components, props=["C11"])
def spec_cfs_components(cls, definition_type_name_c, seq_item, module):
    return cdata(define_list=spec_defines(cls, definition_type_name_c, seq_item._with_components))


# ------------------------------------------------------------------- printing
CPR = "asn1_parser.c_printer:CPrinter."


@contract(CPR + "generate_cfs_circular_import_guard", dict(cls=("const", CPrinter), filename=STR, opening=BOOL), lemmas=["lemmas/Names.lean"], props=["C17"])
def spec_guard(cls, filename, opening):
    symbol = "ASN1_PARSER_" + cname(filename).replace(".", "_").upper() + "_INCLUDED"
    if opening:
        return "#ifndef " + symbol + "\n#define " + symbol + "\n"
    return "#endif // " + symbol + "\n"


@contract(CPR + "generate_cfs_header", dict(cls=("const", CPrinter), file_documentation=OPTSTR), props=["C17"])
def spec_banner(cls, file_documentation):
    text = "This file was autogenerated from ASN.1 model."
    if file_documentation:
        text = text + "\n\n" + file_documentation
    return str(cgen.Comment("\n" + text + "\n", skip_space=True)) + "\n"


@contract(CPR + "print_to_file", dict(cdata=CDATA, filename=STR, output_folder=STR, header_type=("const", None)),
          variants=[dict(header_type=HeaderType.STORED_DATA), dict(header_type=HeaderType.MSG), dict(header_type=HeaderType.MSGIDS),
                    dict(header_type=HeaderType.STORED_DATA_BINARY)], merge=True, mode="effect", props=["C16", "C17", "C11", "C10"])
def spec_print(cdata, filename, output_folder, header_type):
    ids = header_type is HeaderType.MSGIDS
    if ids:
        banner = spec_banner(CPrinter, None)
    else:
        banner = spec_banner(CPrinter, cdata._header_comment)
    h = filename + ".h"
    with open(os.path.join(output_folder, h), "w", encoding="utf-8") as f:
        f.write(spec_guard(CPrinter, h, True) + "\n" + banner + "\n")
        if ids:
            if len(cdata._define_list) > 0:
                for d in cdata._define_list:
                    f.write(d + "\n")
                f.write("\n")
        else:
            if cdata._is_stdbool_needed:
                f.write(str(cgen.Include("stdbool.h")) + "\n")
            if cdata._is_stdint_needed:
                f.write(str(cgen.Include("stdint.h")) + "\n")
            for i in cdata._include_list:
                f.write(i + "\n")
            f.write("\n")
            for d in cdata._data:
                f.write(d + "\n\n")
        if header_type is HeaderType.STORED_DATA and len(cdata._init_list_predef) > 0:
            for p in cdata._init_list_predef:
                f.write(p + "\n")
            f.write("\n")
        f.write(spec_guard(CPrinter, h, False))
    if header_type is HeaderType.STORED_DATA:
        with open(os.path.join(output_folder, filename + ".c"), "w", encoding="utf-8") as f:
            f.write(banner + "\n")
            if cdata._init_include:
                f.write(cdata._init_include + "\n\n")
            for i in cdata._init_list:
                f.write(i)
    if header_type is HeaderType.STORED_DATA_BINARY:
        for name, image in cdata._binary_init.items():
            with open(os.path.join(output_folder, name + ".bin"), "wb") as f:
                for part in image:
                    f.write(part)


# --------------------------------------------------------------- binary image
GB = "asn1_parser.generators.binary.generator:BinaryGenerator."
world.declare(SequenceSpecificationContainer, dict(_c_type=("enum", TypeEnum, True), _bitsize=INT, _seq_type=STR))
SPECS = ("map", STR, ("map", STR, ref(SequenceSpecificationContainer)))


def any_endianness(ip, vals):
    ip.classattrs.fields["BinaryGenerator.endianness"] = ip.ctx.mk(STR, "endianness")


def scalar_format(c_type, size):
    """struct format of a scalar of `size` bytes, None when there is none"""
    if c_type is TypeEnum.A_UINT:
        if size == 1:
            return "B"
        if size == 2:
            return "H"
        if size == 4:
            return "I"
        if size == 8:
            return "Q"
    if c_type is TypeEnum.A_INT:
        if size == 1:
            return "b"
        if size == 2:
            return "h"
        if size == 4:
            return "i"
        if size == 8:
            return "q"
    if c_type is TypeEnum.A_FLOAT and size == 4:
        return "f"
    if c_type is TypeEnum.A_DOUBLE and size == 8:
        return "d"
    return None


@contract(GB + "_component_to_bytes", dict(cls=("const", BinaryGenerator), component=COMPONENT, asn_type_name=STR, definitions=SPECS),
          mode="opaque", result=lst(STR), setup=any_endianness, props=["C12"])
def spec_component_bytes(cls, component, asn_type_name, definitions):
    if asn_type_name not in definitions:
        raise Reject
    members = definitions[asn_type_name]
    if component._key not in members:
        raise Reject
    member = members[component._key]
    v = component._value
    out = []
    if isinstance(v, WithComponents):
        for c in v._components:
            out.extend(spec_component_bytes(cls, c, member._seq_type, definitions))
        return out
    fmt = scalar_format(member._c_type, spec_bit_to_bytes(member._bitsize))
    if fmt is None:
        raise Reject
    if BinaryGenerator.endianness == "little-endian":
        return [struct.pack("<" + fmt, v)]
    if BinaryGenerator.endianness == "big-endian":
        return [struct.pack(">" + fmt, v)]
    raise Reject


@contract(GB + "_values_to_bytes_list", dict(cls=("const", BinaryGenerator), key_type_pair=ref(KeyTypePair), definitions=SPECS), setup=any_endianness,
          requires=lambda ip, v: ip.read_field(v["key_type_pair"], "_with_components").t != 0, props=["C12"])
def spec_values_bytes(cls, key_type_pair, definitions):
    out = []
    for c in key_type_pair._with_components._components:
        out.extend(spec_component_bytes(cls, c, key_type_pair._asn_type._type_name, definitions))
    return out


def member_specs(definition):
    return {k._key: SequenceSpecificationContainer(c_type=k._asn_type._c_type, bitsize=spec_member_size(k), seq_type=k._asn_type._type_name)
            for k in definition._seq if k._with_components is None}


@contract(GB + "_with_components_handling", dict(cls=("const", BinaryGenerator), definition_type_name_c=STR, seq_item=ref(KeyTypePair), module=optref(Asn1Module)),
          requires=has_components, setup=any_endianness, props=["C12"])
def spec_binary_components(cls, definition_type_name_c, seq_item, module):
    if module is None:
        raise Reject
    specs = {d._type_name: member_specs(d) for d in module._definitions if isinstance(d, Sequence)}
    return cdata(binary={spec_lowerize(definition_type_name_c): spec_values_bytes(cls, seq_item, specs)})


# -------------------------------------------------------------------- structs
def components_c(cls, name, k, module):
    if cls is CGenerator:
        return spec_c_components(cls, name, k, module)
    if cls is CFSGenerator:
        return spec_cfs_components(cls, name, k, module)
    return spec_binary_components(cls, name, k, module)


@contract(G + "_convert_sequence_to_c", dict(cls=("const", CGenerator), simple_definition_list=lst(ref(SimpleDefinition)), definition=ref(Sequence), module=ref(Asn1Module)),
          variants=GENS, merge=True, setup=any_endianness, mode="opaque", result=CDATA, props=["C10", "C11", "C12", "C16", "C17"])
def spec_sequence_c(cls, simple_definition_list, definition, module):
    if len(definition._seq) == 0:
        raise Reject
    title = cname(definition._type_name)
    out = cdata()
    fields = []
    for k in definition._seq:
        if k._comment is not None:
            fields.append(cgen.LineComment(remark(k._comment)))
        suffix, name, stdbool, stdint = spec_map_simple(cls, k)
        if stdbool:
            out._is_stdbool_needed = True
        if stdint:
            out._is_stdint_needed = True
        if spec_lowerize(name) in POSIX_C:
            name = spec_lowerize(name)
            out._is_stdint_needed = True
        named = [sd for sd in simple_definition_list if cname(sd._type_name) == name]
        if len(named) > 0:
            suffix, name, stdbool, stdint = spec_map_simple(cls, named[0])
            if stdbool:
                out._is_stdbool_needed = True
            if stdint:
                out._is_stdint_needed = True
        field = cname(k._key) + suffix
        t = k._asn_type._type
        if isinstance(t, Array):
            fields.append(cgen.ArrayOf(cgen.Value(name, field), t._length))
        elif isinstance(t, Asn1String):
            fields.append(cgen.ArrayOf(cgen.Value(name, field), t._length))
        else:
            fields.append(cgen.Value(name, field))
        if k._with_components is not None:
            part = components_c(cls, title, k, module)
            out._define_list.extend(part._define_list)
            out._init_list.extend(part._init_list)
            out._init_list_predef.extend(part._init_list_predef)
            if part._init_include:
                out._init_include = part._init_include
            for key, image in part._binary_init.items():
                out._binary_init.setdefault(key, []).extend(image)
    out._data.append(doc(definition) + str(cgen.Typedef(cgen.Struct("", fields, title))))
    return out


@contract("cgen:Struct.struct_attributes", dict(self=STR), soft=True, props=["C10"])
def spec_struct_attributes(self):
    """what the cFS generator module puts in place of cgen's method"""
    return "__attribute__((packed))"
