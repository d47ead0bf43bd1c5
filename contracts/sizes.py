"""C01 / C18: computed widths."""
from .schema import *
from pyvc.contract import Reject

M = "asn1_parser.utils.size"
GE = "asn1_parser.asn1.grammar_elements."


@contract(M + ":get_bit_size", dict(c_type=("enum", TypeEnum, True), begin=NUMVAL, end=NUMVAL), props=["C01", "C10", "C13", "C14", "C18"])
def spec_get_bit_size(c_type, begin, end):
    if c_type is TypeEnum.A_BOOL:
        return 1
    if c_type is TypeEnum.A_FLOAT:
        return 32
    if c_type is TypeEnum.A_DOUBLE:
        return 64
    if c_type is TypeEnum.A_UINT:
        if not isinstance(end, int):
            raise Reject
        if end > 0xFFFFFFFFFFFFFFFF or end.bit_length() > 64:
            raise Reject
        return max(end.bit_length(), 1)
    if c_type is TypeEnum.A_INT:
        if not isinstance(begin, int) or not isinstance(end, int):
            raise Reject
        if -128 <= begin and end <= 127:
            return 8
        if -32768 <= begin and end <= 32767:
            return 16
        if -2147483648 <= begin and end <= 2147483647:
            return 32
        if -9223372036854775808 <= begin and end <= 9223372036854775807:
            return 64
        raise Reject
    if c_type is TypeEnum.A_STRING:
        if not isinstance(end, int):
            raise Reject
        return 8 * end
    raise Reject


@contract(M + ":bit_to_bytes", dict(bits=INT), props=["C01", "C12"])
def spec_bit_to_bytes(bits):
    if bits % 8 != 0:
        raise Reject
    return bits // 8


# ---- sizes of model elements: recursive through nested types
@contract(GE + "asn1_type:Asn1Type.get_size_bits", dict(self=ref(Asn1Type)), mode="opaque", result=INT, props=["C01", "C13", "C14", "C18"])
def spec_type_size(self):
    t = self._type
    if t is None:
        if self._c_type is None:
            raise Reject
        return spec_get_bit_size(self._c_type, self._begin, self._end)
    if isinstance(t, Array):
        return spec_array_size(t)
    if isinstance(t, Asn1String):
        return spec_string_size(t)
    if isinstance(t, Sequence):
        return spec_sequence_size(t)
    if isinstance(t, Enumerated):
        return spec_enum_size(t)
    if isinstance(t, SimpleDefinition):
        return spec_simple_size(t)
    raise Reject


@contract(GE + "array:Array.get_size_bits", dict(self=ref(Array)), props=["C01", "C13", "C14", "C18"])
def spec_array_size(self):
    return self._length * spec_type_size(self._asn_type)


@contract(GE + "asn1_string:Asn1String.get_size_bits", dict(self=ref(Asn1String)), props=["C01", "C13", "C14", "C18"])
def spec_string_size(self):
    return 8 * self._length


@contract(GE + "key_type_pair:KeyTypePair.get_size_bits", dict(self=ref(KeyTypePair)), props=["C01", "C13", "C14", "C18"])
def spec_member_size(self):
    return spec_type_size(self._asn_type)


@contract(GE + "sequence:Sequence.get_size_bits", dict(self=ref(Sequence)), mode="opaque", result=INT, props=["C01", "C13", "C18"])
def spec_sequence_size(self):
    total = 0
    for m in self._seq:
        total += spec_type_size(m._asn_type)
    return total


@contract(GE + "simple_definition:SimpleDefinition.get_size_bits", dict(self=ref(SimpleDefinition)), props=["C01", "C13", "C14", "C18"])
def spec_simple_size(self):
    return spec_type_size(self._asn_type)


@contract(GE + "enumerated:Enumerated.get_size_bits", dict(self=ref(Enumerated)), mode="opaque", result=INT, props=["C01", "C10", "C13", "C14"])
def spec_enum_size(self):
    if len(self._enum) == 0:
        raise Reject
    n = max([e._pos for e in self._enum])
    return max(n.bit_length(), 1)
