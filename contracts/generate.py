"""C10 C16 C17: what is written for a whole bundle."""
from .schema import *
from .ccode import *
from .sorter import *

# ------------------------------------------------------------- whole modules
def add(out, part):
    out._data.extend(part._data)
    out._define_list.extend(part._define_list)
    out._include_list.extend(part._include_list)
    out._init_list.extend(part._init_list)
    out._init_list_predef.extend(part._init_list_predef)
    if part._init_include:
        out._init_include = part._init_include
    out._is_stdbool_needed = out._is_stdbool_needed or part._is_stdbool_needed
    out._is_stdint_needed = out._is_stdint_needed or part._is_stdint_needed
    for key, image in part._binary_init.items():
        out._binary_init.setdefault(key, []).extend(image)


def visible_simple(module):
    """simple definitions of the module, then those of the modules it imports"""
    own = [d for d in module._definitions if isinstance(d, SimpleDefinition)]
    for other in module._imported_modules:
        own.extend([d for d in other._definitions if isinstance(d, SimpleDefinition)])
    return own


def add_definition(out, cls, simple, note, noted, definition, module):
    if isinstance(definition, SimpleDefinition):
        if noted:
            out._include_list.append(note)
    elif isinstance(definition, Sequence):
        add(out, spec_sequence_c(cls, simple, definition, module))
    elif isinstance(definition, Enumerated):
        add(out, spec_enumerated_c(cls, definition))
    else:
        add(out, spec_choice_c(cls, definition))


def start_module(module, suffix):
    out = cdata()
    if module._comment_import is not None:
        out._include_list.append(str(cgen.LineComment(module._comment_import._comment)))
    if module._import_items is not None:
        for item in module._import_items:
            out._include_list.append(str(cgen.Include(cname(item._module_name) + suffix + ".h", system=False)))
    return out


def document(out, module):
    if module._comment is not None and module._comment._comment:
        out._header_comment = module._comment._comment


@contract(GF + "get_msg_filename", dict(cls=("const", CFSGenerator), module=ref(Asn1Module, ImportItem)), props=["C10", "C17"])
def spec_msg_filename(cls, module):
    if isinstance(module, Asn1Module):
        return cname(module._module_name) + "_msg"
    return cname(module._module_name) + "_msg"


@contract(GF + "get_msgids_filename", dict(cls=("const", CFSGenerator), module=ref(Asn1Module)), props=["C11", "C17"])
def spec_msgids_filename(cls, module):
    return cname(module._module_name) + "_msgids"


@contract(GB + "get_filename", dict(cls=("const", BinaryGenerator), module=ref(Asn1Module, ImportItem)), props=["C10", "C12", "C17"])
def spec_binary_filename(cls, module):
    if isinstance(module, Asn1Module):
        return cname(module._module_name)
    return cname(module._module_name)


@contract(GC + "generate_c", dict(cls=("const", CGenerator), config=ref(GenerateCCommandConfig), bundle=ref(ASN1Bundle)), merge=True,
          props=["C05", "C10", "C16", "C17"])
def spec_generate_c(cls, config, bundle):
    for module in spec_modules_ordered(bundle):
        out = start_module(module, "")
        simple = visible_simple(module)
        for d in spec_sorted_definitions(module):
            note = "\n// NOTE: " + d._type_name + " is embedded directly where it is used. Rationale: Bitfields cannot be typedef'd."
            add_definition(out, cls, simple, note, True, d, module)
        document(out, module)
        spec_print(out, cname(module._module_name), config.output_dir, HeaderType.STORED_DATA)


@contract(GB + "generate_binary", dict(cls=("const", BinaryGenerator), config=ref(GenerateBinaryCommandConfig), bundle=ref(ASN1Bundle)), merge=True,
          props=["C05", "C10", "C12", "C17"])
def spec_generate_binary(cls, config, bundle):
    BinaryGenerator.endianness = config.endianness
    for module in spec_modules_ordered(bundle):
        out = start_module(module, "")
        simple = visible_simple(module)
        for d in spec_sorted_definitions(module):
            note = "\n// NOTE: " + d._type_name + " is embedded directly where it is used. Rationale: Bitfields cannot be typedef'd."
            add_definition(out, cls, simple, note, not (d._type_name == "Float" or d._type_name == "Double"), d, module)
        document(out, module)
        spec_print(out, cname(module._module_name), config.output_dir, HeaderType.STORED_DATA_BINARY)


@contract(GF + "generate_cfs", dict(cls=("const", CFSGenerator), config=ref(GenerateCFSCommandConfig), bundle=ref(ASN1Bundle)), merge=True,
          props=["C05", "C10", "C11", "C17"])
def spec_generate_cfs(cls, config, bundle):
    for module in spec_modules_ordered(bundle):
        out = start_module(module, "_msg")
        simple = visible_simple(module)
        uses = bundle.simple_def_uses
        for d in spec_sorted_definitions(module):
            note = None
            if isinstance(d, SimpleDefinition) and d._type_name in uses:
                bits = spec_simple_size(d)
                kind = "builtin" if bits == 8 or bits == 16 or bits == 32 or bits == 64 else "bitfield"
                note = ("// NOTE: The simple type '" + d._type_name + "' has been generated to a C " + kind + " type and is used directly in "
                        + ", ".join("'" + m + "'" for m in sorted(uses[d._type_name])))
            add_definition(out, cls, simple, note, note is not None, d, module)
        document(out, module)
        spec_print(out, cname(module._module_name) + "_msg", config.output_dir, HeaderType.MSG)
        spec_print(out, cname(module._module_name) + "_msgids", config.output_dir, HeaderType.MSGIDS)
