"""C07 C08 C18: bundle construction and validation."""
import z3
from .schema import *
from .processors import *
from pyvc.contract import Reject
from pyvc.values import SInt, LList

B = "asn1_parser.asn1.asn1_bundle_builder:ASN1BundleBuilder."
V = "asn1_parser.asn1.validation.asn1_bundle_validator:ASN1BundleValidator."
BU = "asn1_parser.asn1.asn1_bundle:ASN1Bundle."


def duplicates(names):
    for i in range(len(names)):
        for j in range(i):
            if names[i] == names[j]:
                return True
    return False


@contract(V + "_check_bundle_for_duplicate_definitions", dict(bundle=ref(ASN1Bundle)), mode="opaque", props=["C07"])
def spec_duplicates(bundle):
    seen = []
    for m in bundle.modules:
        for d in m._definitions:
            if d._type_name in seen:
                raise Reject
            seen.append(d._type_name)


@contract(V + "_check_imported_types_and_check_components", dict(bundle=ref(ASN1Bundle)), mode="opaque", props=["C08", "C09"])
def spec_imported_types(bundle):
    for m in bundle.modules:
        for other in m._imported_modules:
            defined = [d._type_name for d in other._definitions]
            if m._import_items is not None:
                for item in m._import_items:
                    if item._module_name == other._module_name:
                        for n in item._definitions:
                            if n not in defined:
                                raise Reject
    everything = [d for m in bundle.modules for d in m._definitions]
    sequences = [d for d in everything if isinstance(d, Sequence)]
    for d in everything:
        if isinstance(d, Sequence):
            for k in d._seq:
                spec_with_component("helper", k._with_components, sequences, k._asn_type._type_name, d._type_name)


CFG = (GenerateCFSCommandConfig, GenerateCCommandConfig, GenerateBinaryCommandConfig)
for _c in CFG:
    world.declare(_c, dict(asn1_modules=lst(STR), output_dir=STR, endianness=STR))


@contract(V + "check_missing_modules", dict(config=ref(GenerateCFSCommandConfig), bundle=ref(ASN1Bundle)),
          mode="opaque", props=["C08"])
def spec_missing_modules(config, bundle):
    names = [m._module_name for m in bundle.modules]
    for n in names:
        if n not in config.asn1_modules:
            raise Reject
    for n in config.asn1_modules:
        if n not in names:
            raise Reject


@contract(B + "_validate_unique_module_names", dict(module_list=lst(ref(Asn1Module)), config=ref(GenerateCFSCommandConfig)), mode="opaque", props=["C07"])
def spec_unique_modules(module_list, config):
    seen = []
    for m in module_list:
        if m._module_name in seen:
            raise Reject
        seen.append(m._module_name)
    seen2 = []
    for n in config.asn1_modules:
        if n in seen2:
            raise Reject
        seen2.append(n)


@contract(BU + "get_module", dict(self=ref(ASN1Bundle), module_name=STR), props=["C08", "C13"])
def spec_get_module(self, module_name):
    if len(self.modules) == 0:
        raise Reject
    for m in self.modules:
        if m._module_name == module_name:
            return m
    return None


@contract(V + "validate_bundle", dict(bundle=ref(ASN1Bundle)), props=["C07", "C08", "C09"])
def spec_validate_bundle(bundle):
    spec_imported_types(bundle)
    spec_duplicates(bundle)


@contract(V + "validate_bundle_from_config", dict(config=ref(GenerateCFSCommandConfig), bundle=ref(ASN1Bundle)), props=["C07", "C08", "C09"])
def spec_validate_from_config(config, bundle):
    spec_imported_types(bundle)
    spec_duplicates(bundle)
    spec_missing_modules(config, bundle)
