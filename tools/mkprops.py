#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
A = "asn1_parser/"
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[A + f for f in files],
                     state=[dict(name=n, meaning=m, where=A + w) for n, m, w in state],
                     mechanism=[dict(name=n, where=A + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "The computed field width holds every value of the declared range",
  "For every type, the bit width the tool assigns to a field can represent every value of the declared range: an unsigned range 0..n gets the least number of bits (at least 1) that holds n, a signed range the smallest of 8/16/32/64 bits that holds both ends, booleans 1 bit, single/double reals 32/64 bits, strings 8 bits per character, enumerations the least number of bits (at least 1) for the largest number. An unsigned range above 64 bits or a signed range outside 64 bits is rejected, and a bit count that is no multiple of 8 is never turned into a byte count.",
  "all declared kinds, all integer/real range ends of any magnitude, all string lengths and enumeration sizes",
  "The tests sample a few widths (3, 8, 11, 16 bits); an off-by-one at a power-of-two boundary or at one end of the signed range shows only for particular bounds.",
  ["utils/size.py", "asn1/grammar_elements/asn1_type.py", "asn1/grammar_elements/enumerated.py", "asn1/grammar_elements/asn1_string.py"],
  [("get_bit_size", "utils/size.py"), ("bit_to_bytes", "utils/size.py"), ("get_size_bits methods", "asn1/grammar_elements/")],
  observe=["bitfield widths in generated headers", "bit sizes in COSMOS items", "sizes in the binary image"])
p("C02", "Every primitive type is classified by its declared range, or rejected",
  "A parsed primitive is classified as boolean, unsigned, signed, single real, double real or string exactly according to its type name and declared range: an integer range is unsigned exactly when its lower end is not negative, and a real range is single precision exactly when it lies within the single-precision limits. A range whose end is below its begin, and a real range outside double precision, is rejected, and the literals TRUE and FALSE of fixed values become the corresponding booleans while all other values are kept.",
  "all type names, all pairs of range ends, all fixed values",
  "Tests use non-boundary ranges; the boundary cases (begin 0 or -1, begin = end, exact float limits) are unbounded in number and untested.",
  ["asn1/processor.py", "asn1/parser.py"],
  [("asn1_type", "asn1/processor.py"), ("str_to_bool", "asn1/processor.py"), ("object processor registration", "asn1/parser.py")],
  observe=["type kind of each model element after parsing", "error on parsing"])
p("C03", "Reserved fixed-width type names always mean exactly that range; NULL is refused",
  "A definition that uses one of the reserved fixed-width names (8/16/32/64-bit signed and unsigned integers, single and double reals) is accepted only if its declared range is exactly the range the name stands for. Any use of the NULL type in a member or in a definition is rejected.",
  "all reserved names and all declared ranges; all members and definitions",
  "Tests check two or three wrong ranges; a name/range pair off by one in either end for any of the ten names needs all inputs.",
  ["asn1/processor.py", "utils/size.py", "asn1/parser.py"],
  [("check_posix / null_exception_catch", "asn1/processor.py"), ("ASN1_POSIX_RANGE", "utils/size.py")],
  observe=["error on parsing"])
p("C04", "Accepted enumerations are numbered 0..n-1 without gaps or repeats",
  "After parsing, the items of every accepted enumeration carry the numbers 0..n-1, each exactly once and in ascending order, and no item is lost, duplicated or renamed. Items whose numbers were given keep them, items of an enumeration without numbers are numbered in the order written, and an enumeration whose given numbers are not a permutation of 0..n-1 is rejected.",
  "all enumerations of any length, any assignment of numbers including negative, repeated and out-of-range ones",
  "The tests try a handful of numberings of 2-4 items; the sum-based shortcut in the code is only right because of an argument over all numberings.",
  ["asn1/processor.py", "asn1/grammar_elements/enumerated.py", "asn1/grammar_elements/enumerated_item.py"],
  [("check_enumerated", "asn1/processor.py")],
  observe=["enumeration items of the parsed model", "enum constants / STATE lines", "error on parsing"])
p("C05", "Generated headers define every type exactly once and before its first use",
  "Within a module, code is emitted for every definition exactly once, and a structure or union comes after every definition of the same module that it uses, whatever the order in which they were written. If the definitions depend on each other in a cycle, the tool stops with an error instead of looping forever or emitting a partial header.",
  "all modules: any number of definitions, any dependency graph between them, any order of writing",
  "Tests contain a few short, mostly already ordered modules; order, completeness and termination must hold for every dependency graph.",
  ["generators/cfs/module_sorter.py"],
  [("get_definitions_sorted_by_dependency", "generators/cfs/module_sorter.py")],
  over=("inputs", "programs"), observe=["order of typedefs in the generated header"],
  state=[("not_yet_defined / already_defined", "work list and result of the sort", "generators/cfs/module_sorter.py")])
p("C06", "Every module is generated exactly once, importers first; import cycles fail",
  "For every bundle whose imports form no cycle, each module is processed exactly once, and a module is processed before the modules that it imports. A cycle of imports makes the tool stop with an error instead of running forever or dropping modules.",
  "all bundles: any number of modules, any import graph, any order on the command line",
  "Tests use at most four modules in one or two orders; the sort edits lists while it walks over them, so its correctness depends on every graph and order.",
  ["generators/cfs/module_sorter.py", "asn1/asn1_bundle.py"],
  [("create_ordered_import_list", "generators/cfs/module_sorter.py"), ("get_modules_ordered", "asn1/asn1_bundle.py")],
  over=("inputs", "programs"), observe=["set of generated files", "order of generation"],
  state=[("module_list / module_names / module_order", "work lists and result of the sort", "generators/cfs/module_sorter.py")])
p("C07", "A type or module name declared twice is always rejected, unique ones never",
  "A bundle is rejected exactly when some type name is defined more than once anywhere in it, in one module or across modules. For the cFS, C and binary outputs a module name that occurs twice, in the bundle or in the list of modules on the command line, is rejected; bundles with unique names are not rejected for this reason.",
  "all bundles of any number of modules and definitions, all module lists",
  "Tests hold one duplicate pair in a fixed place; the position, distance and kinds of the two definitions are unbounded.",
  ["asn1/validation/asn1_bundle_validator.py", "asn1/asn1_bundle_builder.py"],
  [("_check_bundle_for_duplicate_definitions", "asn1/validation/asn1_bundle_validator.py"), ("_validate_unique_module_names", "asn1/asn1_bundle_builder.py")],
  observe=["error on building the bundle"])
p("C08", "Undefined types, imports and modules are always reported, defined ones never",
  "A module is rejected exactly when a member of a structure or union uses a type that is neither built in, nor defined in the module, nor imported by it; a bundle is rejected exactly when a module imports from a module that is not in the bundle or imports a type which that module does not define. The list of modules given on the command line must name exactly the modules of the bundle, otherwise the run is rejected.",
  "all modules and bundles, all import lists, all module lists",
  "Tests name one missing type, import or module each; which of many members, imports and modules is the missing one is unbounded.",
  ["asn1/processor.py", "asn1/asn1_bundle_builder.py", "asn1/validation/asn1_bundle_validator.py", "asn1/parser.py"],
  [("model_processor_check_used_types_defined", "asn1/processor.py"), ("_filter_dependencies / _resolve_dependencies", "asn1/asn1_bundle_builder.py"), ("_check_imported_types_and_check_components / check_missing_modules", "asn1/validation/asn1_bundle_validator.py")],
  observe=["error on parsing or on building the bundle"])
p("C09", "Fixed values may only name members that exist, at every nesting level",
  "A WITH COMPONENTS block is accepted exactly when the type it constrains is a known structure (or a built-in type) and every name in it is a member of that structure, and the same holds for every nested block with respect to the type of the member it is attached to. A violation at any depth and any position is rejected.",
  "all bundles, all nesting depths and positions of WITH COMPONENTS blocks",
  "Tests contain an invalid name at depth one or two; the recursion must be right for every depth, position and combination.",
  ["asn1/processor.py", "asn1/validation/asn1_bundle_validator.py"],
  [("_check_with_component / model_processor_check_used_components_defined", "asn1/processor.py")],
  observe=["error on building the bundle"])
p("C10", "Every structure is emitted as a packed C struct with exactly its members",
  "For every structure definition the generated header holds one packed C struct of that name with one field per member, in the order written, named after the member with '-' written as '_'; strings and arrays have the declared length. A boolean is a 1-bit field; an integer has the unsigned or signed stdint type of the smallest of 8/16/32/64 bits that holds it, with a bitfield width equal to its computed width when that is not 8/16/32/64; an enumeration is a bitfield of its computed width; reals are float or double; a name of a simple type definition of the module or of a directly imported module is replaced by that definition's C type, and a reserved fixed-width name by its stdint type. Whatever an accepted comment says, it stays a comment: no member is lost to it.",
  "all structure definitions of any number of members and all member types the generators support",
  "The tests compare a few complete headers; widths, types, names and order for other ranges, member mixes and positions are never looked at.",
  ["generators/generator.py", "c_printer.py", "utils/string.py"],
  [("_map_simple_types_to_c / _convert_sequence_to_c", "generators/generator.py"), ("asn1_to_c_style_naming", "c_printer.py")],
  observe=["struct definitions in generated headers"])
p("C11", "cFS message ids and constants equal the fixed values of the message",
  "The message id that the cFS output defines for a message is exactly version<<13 | type<<12 | secondary-header-flag<<11 | application-process-identifier of the fixed values of its primary header, whatever the order in which they are written and with absent ones as zero. Every other fixed value of the message, at any nesting depth, yields exactly one constant named after message and member with the value given (true/false for booleans), in the order written, and any unexpected name inside the primary header is rejected.",
  "all fixed value blocks: any nesting, order, subset and values in range",
  "Tests check a handful of ids; a wrong shift, a swallowed value or order dependence shows only for other values, orders or subsets.",
  ["generators/cfs/generator.py"],
  [("_ccsds_primary_header_to_msg_id / _process_with_components / _with_components_handling", "generators/cfs/generator.py")],
  observe=["#define lines of the generated message-id header"])
p("C12", "The binary image is the exact encoding of the fixed values",
  "The binary file of a structure is the concatenation, in the order the fixed values are written and depth first through nested blocks, of each value encoded in the type, size and requested byte order of the member it names, and contains nothing else; the fixed values of several members of one structure follow each other. A value that does not fit its type, or whose type has no binary encoding, makes the run fail instead of writing a wrong image.",
  "all structures with fixed values, all nestings, all values, both byte orders",
  "The integration test covers one message in each byte order; the format choice per type and size and the order must be right for every combination.",
  ["generators/binary/generator.py", "c_data.py", "c_printer.py"],
  [("_component_to_bytes / _values_to_bytes_list / _with_components_handling", "generators/binary/generator.py"), ("extend_with_cdata", "c_data.py"), ("print_to_file", "c_printer.py")],
  over=("inputs", "configurations"), observe=["bytes of the generated .bin files"])
p("C13", "COSMOS packets list exactly the flattened fields with size, value and unit",
  "The COSMOS packet of a message has one item per leaf field of the message, in declaration order with nested structures flattened depth first, each with the field's name, kind, computed bit width, comment and unit and, if marked, little endian order; arrays are array items of element width and total width, and strings have 8 bits per character. A field with a fixed value in the message is an identification item carrying that value (0/1 for booleans, hexadecimal for the application process identifier), all others are plain items; real fields whose range is narrower than their type carry their range as limits. Only requested messages are written, in the order requested, and an unknown message name is rejected. No accepted comment breaks the line it is written into.",
  "all messages over any nesting of structures, any fixed values, any list of requested messages",
  "Tests compare a few packets as a whole; order, sizes and values for other nestings and for fixed values at other depths and positions are not reached.",
  ["generators/cosmos/generator.py", "generators/cosmos/templates.py", "generators/cosmos/telemetry.py"],
  [("_create_telemetry_item_data / _get_definition / _range_subrange_data_type / generate_cosmos", "generators/cosmos/generator.py"), ("cosmos_telemetry", "generators/cosmos/templates.py")],
  observe=["TELEMETRY / APPEND_* / LIMITS / UNITS lines of the generated file"])
p("C14", "Flight and ground outputs agree on the bit width and sign of every field",
  "For every member of every structure that both generators accept, the width of the field in the generated C struct (its bitfield width, or the size of its C type) equals the bit width of the corresponding COSMOS item, and both agree on whether it is signed, unsigned, real or text.",
  "all structures and member types (except arrays of bitfields, unions and strings given by name, which one side cannot express)",
  "No test compares the two outputs; the two generators compute widths on separate paths.",
  ["generators/generator.py", "generators/cosmos/generator.py", "utils/size.py", "asn1/grammar_elements/enumerated.py"],
  [("_map_simple_types_to_c", "generators/generator.py"), ("_create_telemetry_item_data", "generators/cosmos/generator.py"), ("get_bit_size", "utils/size.py")],
  observe=["generated header against generated COSMOS file"])
p("C15", "Generating never changes the model, so output does not depend on history",
  "Running a generator leaves the parsed model as it was: names, types, ranges, members, fixed values and their order are unchanged. Hence the output for a message or module is the same however many messages or generators ran before on the same model, and in whatever order, and two runs of the program on the same input and configuration write the same bytes.",
  "all bundles, all sequences of generator runs over the same model",
  "Tests run one generator once per model; a list that is extended in place shows up only for a second message or run.",
  ["generators/generator.py", "generators/cfs/generator.py", "generators/c/generator.py", "generators/binary/generator.py", "generators/cosmos/generator.py", "generators/cfs/module_sorter.py", "asn1/asn1_bundle.py"],
  [("all generate_* entry points and what they call", "generators/")],
  over=("inputs", "histories"), observe=["model before and after", "outputs of repeated runs"])
p("C16", "C initialisers assign exactly the fixed values to exactly the named members",
  "The C source generated for a structure with a member that has fixed values defines a variable of that structure whose initialiser assigns to each named member (nested as the structure is nested, '-' as '_') exactly the value written, with TRUE/FALSE as 1/0, in the order written and nothing else; the variable is declared in the header, and the source includes that header.",
  "all structures with fixed values, all nesting depths, orders and values",
  "Tests compare two small initialisers; nesting depth, order and value mix are unbounded.",
  ["generators/c/generator.py", "c_data.py", "c_printer.py"],
  [("_process_start_with_component / _process_with_components / _with_components_handling", "generators/c/generator.py"), ("extend_with_cdata", "c_data.py"), ("print_to_file", "c_printer.py")],
  observe=["generated .c and .h files"])
p("C17", "Every generated header is guarded, complete and includes what it uses",
  "For every module, the header written under the module's file name consists of one include guard named after that file around the content, an include of stdint.h whenever a stdint type is used, one include per imported module naming the file that is generated for that module, and then the emitted definitions in order, each exactly once; nothing collected for the module is lost when its parts are merged and printed. Two different modules never get the same file or guard name.",
  "all modules and bundles, all generators that write headers",
  "Tests look at a few lines of a few files; loss or reordering when several definitions, imports and comments are merged needs other combinations.",
  ["c_printer.py", "c_data.py", "generators/cfs/generator.py", "generators/c/generator.py", "generators/binary/generator.py"],
  [("print_to_file / generate_cfs_circular_import_guard", "c_printer.py"), ("CData.extend_with_cdata", "c_data.py"), ("generate_cfs / generate_c / generate_binary", "generators/")],
  observe=["generated header files"])
p("C18", "Type references resolve to the definition of that name; sizes add up",
  "After a bundle is built, every structure member (and array element) that names a user type is linked to the one definition with that name in the bundle, whichever module defines it, and all other type information is unchanged. The reported size of a structure is the sum of the sizes of its members, that of an array its length times the element size, and a module's list of imported modules is exactly the modules it names in its imports, in order.",
  "all bundles, all reference graphs and definition orders",
  "Tests check single references in one or two modules; linking depends on all modules and the order they are given.",
  ["asn1/asn1_bundle_builder.py", "asn1/grammar_elements/sequence.py", "asn1/grammar_elements/array.py", "asn1/grammar_elements/key_type_pair.py", "asn1/grammar_elements/asn1_type.py"],
  [("_resolve_types / _resolve_dependencies / _filter_dependencies", "asn1/asn1_bundle_builder.py"), ("get_size_bits methods", "asn1/grammar_elements/")],
  observe=["linked model returned by the bundle builder"])
p("C19", "Enumeration names and numbers are the same in C and COSMOS outputs",
  "For every enumeration the generated C enum is packed and has exactly one constant per item, named after it with '-' as '_' and equal to the item's number, in order; a COSMOS item of that enumeration has exactly one state per item with the item's name and the same number. An item of a member declared BOOLEAN has the states False = 0 and True = 1.",
  "all enumerations of any length and all fields of enumeration or boolean type",
  "Tests compare a few small enumerations; the two outputs number the items independently.",
  ["generators/generator.py", "generators/cosmos/generator.py", "generators/cosmos/templates.py", "asn1/grammar_elements/enumerated.py"],
  [("_convert_enumerated_to_c", "generators/generator.py"), ("get_states", "asn1/grammar_elements/enumerated.py"), ("cosmos_telemetry", "generators/cosmos/templates.py")],
  observe=["typedef enum blocks", "STATE lines"])
p("C20", "The parser reads every well-formed model faithfully and rejects the rest",
  "For every text in the documented ASN.1 subset, the parsed model contains exactly the modules, imports, definitions, members, ranges, lengths, fixed values, comments, units and endianness marks of the text, in the order written; text outside the subset is rejected.",
  "all input texts",
  "The tests parse a few dozen texts; the input language is infinite.",
  ["asn1/grammar.py", "asn1/parser.py"],
  [("GRAMMAR", "asn1/grammar.py"), ("Asn1Parser", "asn1/parser.py")], observe=["parsed model"])
p("C21", "Generated C headers compile with the target compiler",
  "For every accepted bundle, each generated header and source file is valid C that the flight software's compiler accepts on its own.",
  "all accepted bundles",
  "The integration tests compile one generated header.",
  ["generators/generator.py", "c_printer.py"],
  [("C output of all generators", "generators/")], observe=["C compiler result"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
