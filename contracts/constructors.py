"""The constructors: an object holds what it was given (the parser and the generators make their objects through them).

The parent (any object) is seen as an arbitrary value that is only stored."""
from .schema import *

GE = "asn1_parser.asn1.grammar_elements."
ANY = STR
COMMENT = optref(Asn1Comment)
GENERATORS = ["C10", "C11", "C12", "C16", "C17"]


def new(cls):
    return ("obj", cls, {})


@contract(GE + "asn1_comment:Asn1Comment.__init__", dict(self=new(Asn1Comment), parent=COMMENTED, comment=OPTSTR, unit=OPTSTR, is_little_endian=BOOL), props=["C13"])
def spec_comment(self, parent, comment, unit, is_little_endian):
    self._parent = parent
    self._comment = comment
    self._unit = unit
    self._is_little_endian = is_little_endian


@contract(GE + "array:Array.__init__", dict(self=new(Array), asn_type=ASN1TYPE, length=INT, parent=ANY), props=["C10", "C13", "C18"])
def spec_array(self, asn_type, length, parent):
    self._asn_type = asn_type
    self._length = length
    self._parent = parent


@contract(GE + "asn1_string:Asn1String.__init__", dict(self=new(Asn1String), length=INT, type_name=STR, parent=ANY), props=["C01", "C10", "C13"])
def spec_string(self, length, type_name, parent):
    self._length = length
    self._type_name = type_name
    self._parent = parent


@contract(GE + "asn1_type:Asn1Type.__init__", dict(self=new(Asn1Type), begin=NUMVAL, end=NUMVAL, type_name=("val", [("str",), ("ref", (Array, Asn1String))]), parent=ANY),
          props=["C01", "C02", "C10", "C13", "C18"])
def spec_type(self, begin, end, type_name, parent):
    """an array has the name of its element type"""
    self._begin = begin
    self._end = end
    self._c_type = None
    self._parent = parent
    if isinstance(type_name, Array):
        self._type = type_name
        self._type_name = type_name._asn_type._type_name
    elif isinstance(type_name, Asn1String):
        self._type = type_name
        self._type_name = type_name._type_name
    else:
        self._type = None
        self._type_name = type_name


@contract(GE + "definitions:Definitions.__init__", dict(self=new(Definitions), type_name=STR, comment=COMMENT, parent=ANY), props=["C05", "C07", "C10"])
def spec_definition(self, type_name, comment, parent):
    self._type_name = type_name
    self._comment = comment
    self._parent = parent


@contract(GE + "sequence:Sequence.__init__", dict(self=new(Sequence), type_name=STR, comment=COMMENT, parent=ANY, seq=lst(ref(KeyTypePair))), props=["C05", "C10", "C13", "C18"])
def spec_sequence(self, type_name, comment, parent, seq):
    self._type_name = type_name
    self._comment = comment
    self._parent = parent
    self._seq = seq


@contract(GE + "choice:Choice.__init__", dict(self=new(Choice), type_name=STR, comment=COMMENT, parent=ANY, choice=lst(ref(KeyTypePair))), props=["C05", "C08"])
def spec_choice(self, type_name, comment, parent, choice):
    self._type_name = type_name
    self._comment = comment
    self._parent = parent
    self._choice = choice


@contract(GE + "simple_definition:SimpleDefinition.__init__", dict(self=new(SimpleDefinition), type_name=STR, comment=COMMENT, parent=ANY, asn_type=ASN1TYPE), props=["C03", "C10"])
def spec_simple(self, type_name, comment, parent, asn_type):
    self._type_name = type_name
    self._comment = comment
    self._parent = parent
    self._asn_type = asn_type


@contract(GE + "enumerated:Enumerated.__init__", dict(self=new(Enumerated), type_name=STR, comment=COMMENT, parent=ANY, enum=lst(ref(EnumeratedItem))), props=["C04", "C19"])
def spec_enumerated(self, type_name, comment, parent, enum):
    self._type_name = type_name
    self._comment = comment
    self._parent = parent
    self._enum = enum


@contract(GE + "enumerated_item:EnumeratedItem.__init__", dict(self=new(EnumeratedItem), key=STR, pos=("val", [("none",), ("int",)]), comment=COMMENT, parent=ANY), props=["C04", "C19"])
def spec_enumerated_item(self, key, pos, comment, parent):
    self._key = key
    self._pos = pos
    self._comment = comment
    self._parent = parent


@contract(GE + "import_item:ImportItem.__init__", dict(self=new(ImportItem), definitions=lst(STR), module_name=STR, comment=COMMENT, parent=ANY), props=["C06", "C08", "C17", "C18"])
def spec_import_item(self, definitions, module_name, comment, parent):
    self._definitions = definitions
    self._module_name = module_name
    self._comment = comment
    self._parent = parent


@contract(GE + "asn1_module:Asn1Module.__init__", dict(self=new(Asn1Module), module_name=STR, definitions=lst(DEF), comment=COMMENT, comment_import=COMMENT,
                                                       import_items=lst(ref(ImportItem)), imported_modules=("const", None)), props=["C05", "C06", "C07", "C08", "C17", "C18"])
def spec_module(self, module_name, definitions, comment, comment_import, import_items, imported_modules=None):
    """a module that was just parsed is linked to no other module"""
    self._module_name = module_name
    self._definitions = definitions
    self._comment = comment
    self._comment_import = comment_import
    self._import_items = import_items
    self._imported_modules = [] if imported_modules is None else imported_modules


@contract(GE + "key_type_pair:KeyTypePair.__init__", dict(self=new(KeyTypePair), key=STR, asn_type=ASN1TYPE, comment=COMMENT, with_components=optref(WithComponents), parent=ANY),
          props=["C09", "C10", "C13", "C18"])
def spec_key_type_pair(self, key, asn_type, comment, with_components, parent):
    self._key = key
    self._asn_type = asn_type
    self._comment = comment
    self._with_components = with_components
    self._parent = parent


@contract(GE + "components_item:ComponentsItem.__init__", dict(self=new(ComponentsItem), key=STR, value=("val", [("int",), ("real",), ("bool",), ("str",), ("ref", (WithComponents,))]),
                                                               comment=COMMENT, parent=ANY), props=["C02", "C09", "C11", "C12", "C16"])
def spec_components_item(self, key, value, comment, parent):
    self._key = key
    self._value = value
    self._comment = comment
    self._parent = parent


@contract(GE + "with_components:WithComponents.__init__", dict(self=new(WithComponents), components=lst(COMPONENT), comment=COMMENT, parent=ANY), props=["C09", "C11", "C12", "C16"])
def spec_with_components(self, components, comment, parent):
    self._components = components
    self._comment = comment
    self._parent = parent


# ------------------------------------------------------------------ objects the tool makes itself

@contract("asn1_parser.asn1.asn1_bundle:ASN1Bundle.__init__", dict(self=new(ASN1Bundle), modules=lst(ref(Asn1Module)), simple_defs_used=("map", STR, ("set", STR))),
          props=["C06", "C07", "C08", "C17", "C18"])
def spec_bundle(self, modules, simple_defs_used):
    self.modules = modules
    self.simple_def_uses = simple_defs_used


LINES = lst(STR)


@contract("asn1_parser.c_data:CData.__init__", dict(
    self=new(CData), data=LINES, define_list=LINES, include_list=LINES, init_list=LINES, init_list_predef=LINES, init_include=STR, is_stdbool_needed=BOOL, is_stdint_needed=BOOL,
    header_comment=STR, binary_init=("map", STR, LINES)), props=GENERATORS)
def spec_cdata(self, data, define_list, include_list, init_list, init_list_predef, init_include, is_stdbool_needed, is_stdint_needed, header_comment, binary_init):
    self._data = data
    self._define_list = define_list
    self._include_list = include_list
    self._init_list = init_list
    self._init_list_predef = init_list_predef
    self._init_include = init_include
    self._is_stdbool_needed = is_stdbool_needed
    self._is_stdint_needed = is_stdint_needed
    self._header_comment = header_comment
    self._binary_init = binary_init


@contract("asn1_parser.containers.sequence_specification_container:SequenceSpecificationContainer.__init__",
          dict(self=new(SequenceSpecificationContainer), c_type=("enum", TypeEnum, True), bitsize=INT, seq_type=STR), props=["C12"])
def spec_container(self, c_type, bitsize, seq_type):
    self._c_type = c_type
    self._bitsize = bitsize
    self._seq_type = seq_type


@contract("asn1_parser.generators.cosmos.telemetry:RedYellowRange.__init__",
          dict(self=new(RedYellowRange), range_start_red=NUMVAL, range_start_yellow=NUMVAL, range_end_yellow=NUMVAL, range_end_red=NUMVAL), props=["C13"])
def spec_range(self, range_start_red, range_start_yellow, range_end_yellow, range_end_red):
    self.range_start_red = range_start_red
    self.range_start_yellow = range_start_yellow
    self.range_end_yellow = range_end_yellow
    self.range_end_red = range_end_red


@contract("asn1_parser.generators.cosmos.telemetry:TelemetryEntry.__init__", dict(
    self=new(TelemetryEntry), name=STR, bitsize=INT, cosmos_type=("enum", TypeEnum, False), specific_value=STR, comment=OPTSTR, unit=OPTSTR, red_yellow_range=optref(RedYellowRange),
    state_list=LINES, is_array=BOOL, is_little_endian=("val", [("none",), ("bool",)])), props=["C13", "C14", "C19"])
def spec_entry(self, name, bitsize, cosmos_type, specific_value, comment, unit, red_yellow_range, state_list, is_array, is_little_endian):
    self.name = name
    self.bitsize = bitsize
    self.cosmos_type = cosmos_type
    self.specific_value = specific_value
    self.comment = comment
    self.unit = unit
    self.red_yellow_range = red_yellow_range
    self.state_list = state_list
    self.is_array = is_array
    self.is_little_endian = is_little_endian


CL = "asn1_parser.cli.cli_arg_parser:"


@contract(CL + "GenerateCosmosCommandConfig.__init__", dict(self=new(GenerateCosmosCommandConfig), project_root_path=STR, input_paths=LINES, asn1_module=STR, asn1_messages=LINES,
                                                           output_file_name=STR, output_dir=STR), props=["C13"])
def spec_cosmos_configuration(self, project_root_path, input_paths, asn1_module, asn1_messages, output_file_name, output_dir):
    self.project_root_path = project_root_path
    self.input_paths = input_paths
    self.asn1_modules = [asn1_module]
    self.asn1_messages = asn1_messages
    self.output_file_name = output_file_name
    self.output_dir = output_dir


@contract(CL + "GenerateCFSCommandConfig.__init__", dict(self=new(GenerateCFSCommandConfig), project_root_path=STR, input_paths=LINES, asn1_modules=LINES, output_dir=STR),
          props=["C07", "C08", "C11"])
def spec_cfs_configuration(self, project_root_path, input_paths, asn1_modules, output_dir):
    self.project_root_path = project_root_path
    self.input_paths = input_paths
    self.asn1_modules = asn1_modules
    self.output_dir = output_dir


@contract(CL + "GenerateCCommandConfig.__init__", dict(self=new(GenerateCCommandConfig), project_root_path=STR, input_paths=LINES, asn1_modules=LINES, output_dir=STR),
          props=["C07", "C08", "C16"])
def spec_c_configuration(self, project_root_path, input_paths, asn1_modules, output_dir):
    self.project_root_path = project_root_path
    self.input_paths = input_paths
    self.asn1_modules = asn1_modules
    self.output_dir = output_dir


@contract(CL + "GenerateBinaryCommandConfig.__init__", dict(self=new(GenerateBinaryCommandConfig), project_root_path=STR, input_paths=LINES, asn1_modules=LINES, output_dir=STR,
                                                           endianness=STR), props=["C07", "C08", "C12"])
def spec_binary_configuration(self, project_root_path, input_paths, asn1_modules, output_dir, endianness):
    self.project_root_path = project_root_path
    self.input_paths = input_paths
    self.asn1_modules = asn1_modules
    self.output_dir = output_dir
    self.endianness = endianness
