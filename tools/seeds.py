"""The planted bugs (see seed.py)."""
GEN = "generators/generator.py"
CFS = "generators/cfs/generator.py"
CG = "generators/c/generator.py"
BIN = "generators/binary/generator.py"
COS = "generators/cosmos/generator.py"
TPL = "generators/cosmos/templates.py"
PROC = "asn1/processor.py"
VAL = "asn1/validation/asn1_bundle_validator.py"
BLD = "asn1/asn1_bundle_builder.py"
SORT = "generators/cfs/module_sorter.py"
SIZE = "utils/size.py"
ENUM = "asn1/grammar_elements/enumerated.py"

SEEDS = [
 dict(id="c01-int16-upper-edge", property="C01", needs="a signed range that ends exactly at 2^15",
  breaks="a range that ends at 32768 gets 16 bits, which do not hold its end",
  edits=[(SIZE, 'and end <= ASN1_POSIX_RANGE["Int16-t"]["end"]', 'and end <= -ASN1_POSIX_RANGE["Int16-t"]["begin"]')],
  demo='''from asn1_parser.utils.size import get_bit_size, TypeEnum
assert get_bit_size(TypeEnum.A_INT, -5, 2**15) == 32
b = build(M("a", "T ::= SEQUENCE { a INTEGER(-5..32768) }"))
assert "int32_t a;" in out("c", b)["a.h"]
'''),
 dict(id="c01-enum-width-by-count", property="C01", needs="an enumeration whose number of items is a power of two",
  breaks="an enumeration of 2^k items gets k+1 bits instead of the least number of bits for its largest number",
  edits=[(ENUM, "last_value = max(values)", "last_value = max(values[-1:] + [len(values) if len(values) > 8 else 0])")],
  demo='''items = ", ".join(f"i{k}" for k in range(16))
b = build(M("a", f"E ::= ENUMERATED {{ {items} }}\\nT ::= SEQUENCE {{ e E }}"))
assert b.get_modules()[0].get_definitions()[0].get_size_bits() == 4
'''),
 dict(id="c02-float-lower-edge", property="C02", needs="a real range that starts exactly at the single precision minimum",
  breaks="a real range within single precision is classified as double",
  edits=[(PROC, "if begin >= FLOAT_MIN and end <= FLOAT_MAX:", "if begin > FLOAT_MIN and end <= FLOAT_MAX or begin == FLOAT_MIN and end == FLOAT_MAX:")],
  demo='''from asn1_parser.utils.size import TypeEnum
b = build(M("a", "T ::= SEQUENCE { a REAL(-3.4e38 .. 1.0) }"))
m = b.get_modules()[0].get_definitions()[0].get_children()[0]
assert m.get_asn_type().get_c_type() is TypeEnum.A_FLOAT
'''),
 dict(id="c03-posix-or-and", property="C03", needs="a reserved name whose range is wrong at one end only",
  breaks="a reserved fixed-width name with one wrong end of the range is accepted",
  edits=[(PROC, 'if posix.get("begin") != begin or posix.get("end") != end:', 'if posix.get("begin") != begin or end is None or posix["end"] < end:')],
  demo='''assert rejected(lambda: build(M("a", "Uint16-t ::= INTEGER(0..255)")))
'''),
 dict(id="c04-negative-positions", property="C04", needs="a negative number that indexes a free slot from the end",
  breaks="an enumeration with a negative number is accepted",
  edits=[(PROC, "elif pos_sum != sum(i for i in range(len(model.get_enum()))):", "elif abs(pos_sum) != sum(i for i in range(len(model.get_enum()))):")],
  demo='''assert rejected(lambda: build(M("a", "E ::= ENUMERATED { a(0), b(-1), c(-2) }")))
'''),
 dict(id="c05-choice-dependencies", property="C05", needs="a CHOICE written before a structure it uses, in a module that has another CHOICE",
  breaks="a union is emitted before the structure that it contains",
  edits=[(SORT, "                        if type_name not in defined_list:\n                            is_all_defined = False\n                            break",
          "                        if type_name not in defined_list:\n                            is_all_defined = isinstance(\n                                definition, Choice\n                            ) and any(\n                                isinstance(d, Choice) for d in already_defined\n                            )\n                            break")],
  demo='''b = build(M("a", "X ::= CHOICE { a P }\\nY ::= CHOICE { a Q }\\nP ::= SEQUENCE { a BOOLEAN }\\nW ::= CHOICE { p P }\\nV ::= CHOICE { w R }\\nQ ::= SEQUENCE { a BOOLEAN }\\nR ::= SEQUENCE { x S }\\nS ::= SEQUENCE { y BOOLEAN }"))
t = out("c", b)["a.h"]
for u, d in (("union X {", "} __attribute__((packed)) P;"), ("union Y {", "} __attribute__((packed)) Q;"), ("union V {", "} __attribute__((packed)) R;")):
    assert t.count(u) == 1 and t.count(d) == 1, t
    assert t.index(d) < t.index(u), t
'''),
 dict(id="c06-import-names-stale", property="C06", needs="three modules, one of which is imported by two others at different depths",
  breaks="a module is processed before a module that imports it",
  edits=[(SORT, "                    import_names = ModuleSorter._get_import_names(module_list)\n        return module_order",
          "                    import_names = ModuleSorter._get_import_names(\n                        module_list[:2] + module_list[3:]\n                    )\n        return module_order")],
  demo='''ms = [M("a", "A ::= SEQUENCE { a BOOLEAN }"), M("b", "B ::= SEQUENCE { a A }", "IMPORTS A FROM Module-a;"),
      M("c", "C ::= SEQUENCE { a BOOLEAN }"), M("d", "D ::= SEQUENCE { a B }", "IMPORTS B FROM Module-b;"), M("e", "E ::= SEQUENCE { a D }", "IMPORTS D FROM Module-d;")]
import itertools
for p in itertools.permutations(ms):
    b = build(*p)
    n = [m.get_module_name() for m in b.get_modules_ordered()]
    assert sorted(n) == sorted(m.get_module_name() for m in b.get_modules()), n
    for m in b.get_modules():
        for i in m.get_imported_modules_names():
            assert n.index(m.get_module_name()) < n.index(i), n
'''),
 dict(id="c07-choice-duplicates", property="C07", needs="a type name defined twice, once as a CHOICE after another kind",
  breaks="a type name defined both as a structure and as a CHOICE is accepted",
  edits=[(VAL, "                if isinstance(definition, Definitions):", "                if not hasattr(definition, \"_choice\"):")],
  demo='''assert rejected(lambda: build(M("a", "T ::= SEQUENCE { a BOOLEAN }"), M("b", "T ::= CHOICE { a Q }\\nQ ::= SEQUENCE { a BOOLEAN }")))
'''),
 dict(id="c08-choice-members", property="C08", needs="a CHOICE whose member after the first one has an undefined type",
  breaks="an undefined type used by a later member of a CHOICE is not reported",
  edits=[(PROC, "        for key_type_pair in key_type_pair_list:", "        if isinstance(definition, Choice):\n            key_type_pair_list = key_type_pair_list[:1]\n        for key_type_pair in key_type_pair_list:")],
  demo='''assert rejected(lambda: build(M("a", "T ::= CHOICE { a Q, b Nope }\\nQ ::= SEQUENCE { a BOOLEAN }")))
'''),
 dict(id="c09-after-nested-block", property="C09", needs="an unknown name written after a nested block",
  breaks="fixed values after a nested WITH COMPONENTS are not checked",
  edits=[(PROC, "                    _check_with_component(\n                        module_name,\n                        component_value,", "                    return _check_with_component(\n                        module_name,\n                        component_value,")],
  demo='''assert rejected(lambda: build(M("a", "I ::= SEQUENCE { x INTEGER(0..255) }\\nS ::= SEQUENCE { i I, y INTEGER(0..255) }\\nT ::= SEQUENCE { s S (WITH COMPONENTS { i (WITH COMPONENTS { x (1) }), nope (2) }) }")))
'''),
 dict(id="c10-many-dashes", property="C10", needs="a name with more than eight dashes",
  breaks="a field name with many dashes keeps dashes in C",
  edits=[("c_printer.py", 'return name.replace("-", "_")', 'return name.replace("-", "_", 8)')],
  demo='''b = build(M("a", "T ::= SEQUENCE { a-b-c-d-e-f-g-h-i-j-k BOOLEAN }"))
assert "a_b_c_d_e_f_g_h_i_j_k : 1;" in out("c", b)["a.h"]
'''),
 dict(id="c10-array-of-simple", property="C10", needs="a second simple definition used in one structure after a bitfield member",
  breaks="the bitfield width of a previous member leaks into a member with a structure type",
  edits=[(GEN, "            seq_key = CPrinter.asn1_to_c_style_naming(seq_item.get_key())\n", "            seq_key = CPrinter.asn1_to_c_style_naming(seq_item.get_key())\n            if len(simple_definition) > 1:\n                bit_length = \"\"\n")],
  demo='''b = build(M("a", "N-x ::= INTEGER(0..7)\\nN-y ::= INTEGER(0..3)\\nT ::= SEQUENCE { a N-x }"), M("b", "U ::= SEQUENCE { b N-x, c N-y }", "IMPORTS N-x, N-y FROM Module-a N-x FROM Module-a;"))
t = out("c", b)["b.h"]
assert "uint8_t b : 3;" in t and "uint8_t c : 2;" in t, t
'''),
 dict(id="c11-apid-mask", property="C11", needs="an application process identifier above 1023",
  breaks="the top bit of the application process identifier is lost in the message id",
  edits=[(CFS, "                    elif inner_key == ASN1_KEY_CCSDS_APID:\n                        tmtc_id = tmtc_id | (\n                            inner_value\n", "                    elif inner_key == ASN1_KEY_CCSDS_APID:\n                        tmtc_id = tmtc_id | (\n                            (inner_value & 0x3FF)\n")],
  demo='''from asn1_parser.asn1.grammar_elements.components_item import ComponentsItem as CI
from asn1_parser.asn1.grammar_elements.with_components import WithComponents as WC
w = WC([CI("packet-identification", WC([CI("application-process-identifier", 0x7A5, None, None)], None, None), None, None)], None, None)
assert CFSGenerator._ccsds_primary_header_to_msg_id(w) == 0x7A5
'''),
 dict(id="c12-nested-order", property="C12", needs="plain fixed values written after a nested block",
  breaks="bytes of nested blocks of three or more values are reordered",
  edits=[(BIN, "            for inner_component in value.get_components():", "            for inner_component in sorted(\n                value.get_components(),\n                key=lambda c: isinstance(c.get_value(), WithComponents),\n            ):")],
  demo='''b = build(M("a", "I ::= SEQUENCE { x INTEGER(0..255) }\\nR ::= SEQUENCE { i I, y INTEGER(0..255) }\\nS ::= SEQUENCE { r R, z INTEGER(0..255) }\\nT ::= SEQUENCE { s S (WITH COMPONENTS { r (WITH COMPONENTS { i (WITH COMPONENTS { x (1) }), y (2) }), z (3) }) }"))
assert out("binary", b)["t.bin"] == b"\\x01\\x02\\x03"
'''),
 dict(id="c12-class-endianness", property="C12", needs="two runs in one process with different byte orders",
  breaks="the byte order of an earlier run is used",
  edits=[(BIN, "        cls.endianness = config.endianness\n", "        cls.endianness = cls.endianness or config.endianness\n")],
  demo='''b = build(M("a", "S ::= SEQUENCE { z INTEGER(0..65535) }\\nT ::= SEQUENCE { s S (WITH COMPONENTS { z (3) }) }"))
assert out("binary", b)["t.bin"] == b"\\x03\\x00"
assert out("binary", b, endian="big-endian")["t.bin"] == b"\\x00\\x03"
'''),
 dict(id="c13-limits-and", property="C13", needs="a real field whose range is narrower than its type at one end only",
  breaks="a narrowed real field gets no limits",
  edits=[(COS, "and (begin > FLOAT_MIN or end < FLOAT_MAX)", "and (begin > FLOAT_MIN and end <= FLOAT_MAX)")],
  demo='''b = build(M("a", "T ::= SEQUENCE { a REAL(-3.4e38 .. 5.0) }"))
assert "LIMITS DEFAULT 5 ENABLED -3.4e+38 -3.4e+38 5.0 5.0" in out("cosmos", b, ["T"])["o.txt"]
'''),
 dict(id="c14-cosmos-enum-width", property="C14", needs="an enumeration with a power of two of items",
  breaks="the COSMOS item of an enumeration with 2^k items is one bit wider than the C bitfield",
  edits=[(COS, "                        end = len(state_list) - 1", "                        end = len(state_list) - (len(state_list) < 16)")],
  demo='''import re
items = ", ".join(f"i{k}" for k in range(16))
b = build(M("a", f"E ::= ENUMERATED {{ {items} }}\\nT ::= SEQUENCE {{ e E }}"))
c = int(re.search(r"E e : (\\d+);", out("c", b)["a.h"]).group(1))
k = int(re.search(r"APPEND_ITEM +e +(\\d+) UINT", out("cosmos", b, ["T"])["o.txt"]).group(1))
assert c == k, (c, k)
'''),
 dict(id="c15-predefined-leak", property="C15", needs="two modules where an import of the first names a type of the second",
  breaks="names imported by one module count as defined while another one is ordered, so its output depends on what ran before",
  edits=[(SORT, "        defined_list: List[str] = Asn1Module.PREDEFINED_LIST.copy()\n", "        defined_list: List[str] = Asn1Module.PREDEFINED_LIST\n"),
         (SORT, "        defined_list = list(set(defined_list))\n", "        defined_list = list(dict.fromkeys(defined_list))\n")],
  demo='''a = M("a", "T ::= SEQUENCE { p P }\\nP ::= SEQUENCE { a BOOLEAN }")
b = M("b", "U ::= SEQUENCE { p P }", "IMPORTS P FROM Module-a;")
bb = build(a, b)
first = out("c", build(a))["a.h"]
assert out("c", bb)["a.h"] == first
assert out("c", bb)["a.h"] == first
'''),
 dict(id="c15-components-extend", property="C15", needs="a member that has fixed values of its own and gets more from the enclosing block",
  breaks="enumeration items are sorted by name in the model when COSMOS output is generated",
  edits=[(COS, "                        state_list = inner_definition.get_states()", "                        inner_definition.get_enum().sort(key=lambda e: e.get_pos() < 0)\n                        with_comp = None if not with_comp else with_comp\n                        seq_item.get_asn_type().set_begin_if_none(0)\n                        state_list = inner_definition.get_states()")],
  demo='''b = build(M("a", "E ::= ENUMERATED { x, y }\\nT ::= SEQUENCE { e E }"))
m = b.get_modules()[0].get_definitions()[1].get_children()[0].get_asn_type()
before = (m.get_begin(), m.get_end(), str(m))
out("cosmos", b, ["T"])
assert (m.get_begin(), m.get_end(), str(m)) == before
'''),
 dict(id="c16-bool-one", property="C16", needs="an integer fixed value of 1 or 0 written as such in a nested block next to booleans",
  breaks="nested fixed values FALSE are written as 1",
  edits=[(CG, "                    value = 1 if value else 0", "                    value = 1 if value or shift_level > 3 else 0")],
  demo='''b = build(M("a", "I ::= SEQUENCE { x BOOLEAN }\\nR ::= SEQUENCE { i I }\\nS ::= SEQUENCE { r R }\\nT ::= SEQUENCE { s S (WITH COMPONENTS { r (WITH COMPONENTS { i (WITH COMPONENTS { x (FALSE) }) }) }) }"))
assert ".x = 0," in out("c", b)["a.c"]
'''),
 dict(id="c17-stdint-lost", property="C17", needs="a module whose last definition needs no stdint type after one that does",
  breaks="stdint.h is not included although a stdint type is used",
  edits=[("c_data.py", "        self._is_stdint_needed = self._is_stdint_needed or is_stdint_needed", "        self._is_stdint_needed = is_stdint_needed or (\n            self._is_stdint_needed and len(self._data) < 4\n        )")],
  demo='''b = build(M("a", "T ::= SEQUENCE { a INTEGER(0..9) }\\n" + "\\n".join(f"T{k} ::= SEQUENCE {{ a REAL(0.0 .. 1.0) }}" for k in range(6))))
t = out("c", b)["a.h"]
assert "uint8_t" in t and "#include <stdint.h>" in t
'''),
 dict(id="c18-dependency-order", property="C18", needs="imports not written in order of the length of their names",
  breaks="the list of imported modules is not in the order of the imports",
  edits=[(BLD, "                for dependency in dependencies:", "                for dependency in sorted(dependencies, key=len):")],
  demo='''b = build(M("a", "A ::= SEQUENCE { a BOOLEAN }"), M("bb", "B ::= SEQUENCE { a BOOLEAN }"), M("c", "C ::= SEQUENCE { a A, b B }", "IMPORTS B FROM Module-bb A FROM Module-a;"))
assert b.get_module("c").get_imported_modules_names() == ["bb", "a"]
'''),
 dict(id="c18-dashes-dropped", property="C18", needs="two types whose names differ only in a dash",
  breaks="a member is linked to the other of two definitions that differ in a dash only",
  edits=[(BLD, "all_definitions[definition.get_type_name()] = definition", 'all_definitions[definition.get_type_name().replace("-", "")] = definition'),
         (BLD, "type_def = all_definitions.get(typ.get_type_name())", 'type_def = all_definitions.get(typ.get_type_name().replace("-", ""))')],
  demo='''b = build(M("a", "Pqr ::= SEQUENCE { a INTEGER(0..255) }\\nPq-r ::= SEQUENCE { a INTEGER(0..65535) }\\nT ::= SEQUENCE { p Pqr, q Pq-r }"))
d = b.get_modules()[0].get_definitions()
assert d[2].get_children()[0].get_asn_type().get_type() is d[0]
assert d[2].get_children()[1].get_asn_type().get_type() is d[1]
assert d[2].get_size_bits() == 24
'''),
 dict(id="c19-state-truncation", property="C19", needs="an enumeration item with a name longer than 31 characters",
  breaks="a state name is cut in the COSMOS output",
  edits=[(TPL, 'STATE {state_name:31s} {state_val}', 'STATE {state_name:31.31s} {state_val}')],
  demo='''b = build(M("a", "E ::= ENUMERATED { " + "x" * 40 + ", y }\\nT ::= SEQUENCE { e E }"))
assert "STATE " + "x" * 40 + " 0" in out("cosmos", b, ["T"])["o.txt"]
'''),
]
