"""C07 C08 C09 C12 C13: from the command line to the generators."""
import argparse
from .schema import *
from pyvc.contract import Reject
from asn1_parser import main as apg
from asn1_parser.cli import cli_arg_parser
from asn1_parser.cli.cli_arg_parser import ASN1ArgsParser
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
from asn1_parser.asn1.parser import Asn1Parser
from .bundle import spec_unique_modules, spec_validate_bundle, spec_validate_from_config
from .builder import spec_build
from .generate import spec_generate_c, spec_generate_binary, spec_generate_cfs
from .cosmos import spec_generate_cosmos
from .processors import spec_used_components
from .enumeration import spec_check_enumerated
from .textx_api import parsed
from .argparse_api import arguments_as_declared

PA = "asn1_parser.asn1.parser:Asn1Parser."
B = "asn1_parser.asn1.asn1_bundle_builder:ASN1BundleBuilder."
CL = "asn1_parser.cli.cli_arg_parser:"

NS = argparse.Namespace
world.declare(NS, dict(command=STR, input_paths=lst(STR), asn1_module=STR, asn1_modules=lst(STR), asn1_messages=lst(STR), output_file_name=STR, output_dir=STR, endianness=STR))
world.declare(ASN1ArgsParser, dict(args=ref(NS)))
for _c in (GenerateCFSCommandConfig, GenerateCCommandConfig, GenerateBinaryCommandConfig, GenerateCosmosCommandConfig):
    world.fields[_c]["input_paths"] = lst(STR)
    world.fields[_c]["project_root_path"] = STR
BUILD = {spec_build: ref(ASN1Bundle)}
ALL = ["C07", "C08", "C09"]


PR = "asn1_parser.asn1.processor:"
CLASSES = ["Array", "Asn1Module", "Asn1Comment", "Asn1String", "Asn1Type", "Choice", "ComponentsItemNotLast", "ComponentsItemLast", "Definitions", "Enumerated",
           "EnumeratedItemNotLast", "EnumeratedItemLast", "ImportItem", "KeyTypePairNotLast", "KeyTypePairLast", "Sequence", "SimpleDefinition", "WithComponents"]
PROCESSORS = {"Asn1Comment": PR + "check_comment", "Asn1Type": PR + "asn1_type", "ComponentsItemNotLast": PR + "str_to_bool", "ComponentsItemLast": PR + "str_to_bool", "Enumerated": PR + "check_enumerated",
              "KeyTypePairNotLast": PR + "null_exception_catch", "KeyTypePairLast": PR + "null_exception_catch", "SimpleDefinition": PR + "null_exception_catch"}
MODEL_PROCESSORS = [PR + "model_processor_check_used_types_defined"]


@contract(PA + "parse_from_text", dict(cls=("const", Asn1Parser), input_text=STR, is_multimodule=BOOL), mode="opaque", result=ref(Asn1Module), ignore_params=("cls",), soft=True,
          props=["C02", "C03", "C04", "C08", "C09", "C10", "C13", "C16", "C17", "C19"])
def spec_parse_text(cls, input_text, is_multimodule=False):
    """every processor under contract is registered for the classes it is meant for"""
    model = parsed(CLASSES, PROCESSORS, MODEL_PROCESSORS, input_text)
    if not is_multimodule:
        spec_used_components(model)
    return model


@contract(PA + "parse_from_text_multimodule", dict(cls=("const", Asn1Parser), input_texts=lst(STR)), mode="inline", props=ALL + ["C18"])
def spec_parse_texts(cls, input_texts):
    return [spec_parse_text(cls, t, True) for t in input_texts]


@contract(PA + "parse_from_files", dict(cls=("const", Asn1Parser), input_file_paths=lst(STR)), mode="opaque", result=lst(ref(Asn1Module)), ignore_params=("cls",), props=ALL + ["C18"])
def spec_parse_files(cls, input_file_paths):
    import os
    for p in input_file_paths:
        if not os.path.exists(p):
            raise Reject
    out = []
    for p in input_file_paths:
        with open(p, "r") as f:
            out.append(spec_parse_text(cls, f.read(), True))
    return out


@contract(B + "build_from_cfs_config", dict(config=ref(GenerateCFSCommandConfig)), mode="opaque", result=ref(ASN1Bundle), opaque_calls=BUILD, props=ALL)
def spec_from_cfs(config):
    modules = spec_parse_files(Asn1Parser, config.input_paths)
    spec_unique_modules(modules, config)
    bundle = spec_build(modules)
    spec_validate_from_config(config, bundle)
    return bundle


@contract(B + "build_from_c_config", dict(config=ref(GenerateCCommandConfig)), mode="opaque", result=ref(ASN1Bundle), opaque_calls=BUILD, props=ALL)
def spec_from_c(config):
    modules = spec_parse_files(Asn1Parser, config.input_paths)
    spec_unique_modules(modules, config)
    bundle = spec_build(modules)
    spec_validate_from_config(config, bundle)
    return bundle


@contract(B + "build_from_binary_config", dict(config=ref(GenerateBinaryCommandConfig)), mode="opaque", result=ref(ASN1Bundle), opaque_calls=BUILD, props=ALL)
def spec_from_binary(config):
    modules = spec_parse_files(Asn1Parser, config.input_paths)
    spec_unique_modules(modules, config)
    bundle = spec_build(modules)
    spec_validate_from_config(config, bundle)
    return bundle


@contract(B + "build_from_cosmos_config", dict(config=ref(GenerateCosmosCommandConfig)), mode="opaque", result=ref(ASN1Bundle), opaque_calls=BUILD, props=ALL)
def spec_from_cosmos(config):
    bundle = spec_build(spec_parse_files(Asn1Parser, config.input_paths))
    spec_validate_bundle(bundle)
    return bundle


@contract(B + "build_from_texts", dict(texts=lst(STR)), mode="opaque", result=ref(ASN1Bundle), opaque_calls={spec_build: ref(ASN1Bundle), spec_parse_texts: lst(ref(Asn1Module))}, props=ALL)
def spec_from_texts(texts):
    bundle = spec_build(spec_parse_texts(Asn1Parser, texts))
    spec_validate_bundle(bundle)
    return bundle


# ------------------------------------------------------------------ command line

@contract(CL + "_parse_comma_separated_string_argument", dict(fields=STR), props=["C07", "C08", "C13"])
def spec_comma(fields):
    return fields.split(",")


@contract(CL + "ASN1ArgsParser.get_generate_cosmos_config", dict(self=ref(ASN1ArgsParser), project_root_path=STR), props=["C13"])
def spec_cosmos_config(self, project_root_path):
    a = self.args
    return GenerateCosmosCommandConfig(project_root_path=project_root_path, input_paths=a.input_paths, asn1_module=a.asn1_module, asn1_messages=a.asn1_messages,
                                       output_file_name=a.output_file_name, output_dir=a.output_dir)


@contract(CL + "ASN1ArgsParser.get_generate_cfs_config", dict(self=ref(ASN1ArgsParser), project_root_path=STR), props=["C07", "C08", "C11"])
def spec_cfs_config(self, project_root_path):
    a = self.args
    return GenerateCFSCommandConfig(project_root_path=project_root_path, input_paths=a.input_paths, asn1_modules=a.asn1_modules, output_dir=a.output_dir)


@contract(CL + "ASN1ArgsParser.get_generate_c_config", dict(self=ref(ASN1ArgsParser), project_root_path=STR), props=["C07", "C08", "C16"])
def spec_c_config(self, project_root_path):
    a = self.args
    return GenerateCCommandConfig(project_root_path=project_root_path, input_paths=a.input_paths, asn1_modules=a.asn1_modules, output_dir=a.output_dir)


@contract(CL + "ASN1ArgsParser.get_generate_binary_config", dict(self=ref(ASN1ArgsParser), project_root_path=STR), props=["C07", "C08", "C12"])
def spec_binary_config(self, project_root_path):
    a = self.args
    return GenerateBinaryCommandConfig(project_root_path=project_root_path, input_paths=a.input_paths, asn1_modules=a.asn1_modules, output_dir=a.output_dir, endianness=a.endianness)


@contract(CL + "create_args_parser", dict(testing_args=("const", None)), mode="opaque", result=ref(ASN1ArgsParser), soft=True, props=["C07", "C08", "C12", "C13"])
def spec_args(testing_args=None):
    """the four commands with their arguments; help texts and default folders aside"""
    return ASN1ArgsParser(arguments_as_declared(None))


@contract("asn1_parser.main:main", dict(), opaque_calls={
    spec_cosmos_config: ref(GenerateCosmosCommandConfig), spec_cfs_config: ref(GenerateCFSCommandConfig), spec_c_config: ref(GenerateCCommandConfig),
    spec_binary_config: ref(GenerateBinaryCommandConfig), spec_generate_c: ("effect",), spec_generate_binary: ("effect",), spec_generate_cfs: ("effect",),
    spec_generate_cosmos: ("effect",)}, props=ALL + ["C11", "C12", "C13", "C16"])
def spec_main():
    from asn1_parser.generators.binary.generator import BinaryGenerator
    from asn1_parser.generators.cfs.generator import CFSGenerator
    from asn1_parser.generators.c.generator import CGenerator
    from asn1_parser.generators.cosmos.generator import COSMOSGenerator
    parser = spec_args()
    root = apg.ROOT_PATH
    if parser.args.command == "generate-cosmos":
        c = spec_cosmos_config(parser, root)
        spec_generate_cosmos(COSMOSGenerator, c, spec_from_cosmos(c))
    elif parser.args.command == "generate-cfs":
        c = spec_cfs_config(parser, root)
        spec_generate_cfs(CFSGenerator, c, spec_from_cfs(c))
    elif parser.args.command == "generate-c":
        c = spec_c_config(parser, root)
        spec_generate_c(CGenerator, c, spec_from_c(c))
    elif parser.args.command == "generate-binary":
        c = spec_binary_config(parser, root)
        spec_generate_binary(BinaryGenerator, c, spec_from_binary(c))
    else:
        raise Reject
