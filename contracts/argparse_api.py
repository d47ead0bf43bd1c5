"""What is assumed about argparse: parse_args is a function of the declared commands and arguments (and of the command line), or it rejects."""
import argparse
import z3
from .schema import *
from pyvc.values import *
from pyvc.builtins import spec_builtin
from pyvc.contract import Reject

NS = argparse.Namespace


class ArgumentParser:
    def __init__(self, prog=None, usage=None, description=None, epilog=None):
        self.arguments = []
        self.commands = None

    def add_argument(self, name, type=str, nargs=None, help=None, required=False, default=None, choices=None, metavar=None):
        self.arguments.append((name, type, nargs, required, default, choices))

    def add_subparsers(self, title=None, description=None, dest=None, required=False, help=None, metavar=None):
        self.commands = Commands(dest, required)
        return self.commands

    def parse_args(self):
        return arguments(self)


class Commands:
    def __init__(self, dest, required):
        self.dest = dest
        self.required = required
        self.parsers = []

    def add_parser(self, name, help=None, parents=None, description=None, epilog=None):
        parser = ArgumentParser()
        self.parsers.append((name, parser, parents))
        return parser


@spec_builtin
def arguments(parser):
    """the namespace that argparse makes of the command line"""


@spec_builtin
def arguments_as_declared(declared):
    """the same, from the written down declaration"""


def _const(v):
    if isinstance(v, LList):
        if not all(isinstance(i, E) for i in v.items):
            raise Unsupported("argument declaration")
        return [_const(i.v) for i in v.items]
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    raise Unsupported("argument declaration")


def _type(ip, f):
    if isinstance(f, FuncVal) and f.self_arg is None:
        f = f.fn
    if f is str or f is None:
        return "str"
    c = ip.world.contract_for(f) if hasattr(f, "__code__") else None
    if c is None:
        raise Unsupported("argument type without contract")
    return c.target


def canonical(args):
    """order of the options does not matter, help texts and the default output folder neither"""
    out = []
    for name, type_, nargs, required, default, choices in args:
        out.append((name, type_, nargs, bool(required), "a folder" if name == "--output-dir" else default, sorted(choices) if choices else None))
    return ([a for a in out if not a[0].startswith("-")], sorted([a for a in out if a[0].startswith("-")], key=repr))


def _result(ip, nm):
    ip.raise_if(z3.Not(z3.Bool("ok:" + nm)), Reject)
    return ip.ctx.mk(ref(NS), nm)


def _arguments(ip, args, kwargs, node):
    p = args[0]
    main = [tuple(x) for x in [i.v for i in p.fields["arguments"].items]]
    c = p.fields["commands"]
    if main or not isinstance(c, Obj):
        raise Unsupported("declaration of the commands")
    cmds = {}
    for i in c.fields["parsers"].items:
        name, q, parents = i.v
        if parents is not None and _const(parents) or q.fields["commands"] is not None:
            raise Unsupported("declaration of the commands")
        cmds[_const(name)] = canonical([(_const(a[0]), _type(ip, a[1]), _const(a[2]), _const(a[3]), _const(a[4]), _const(a[5])) for a in [x.v for x in q.fields["arguments"].items]])
    return _result(ip, f"arguments:{_const(c.fields['dest'])}:{bool(_const(c.fields['required']))}:{sorted(cmds.items(), key=repr)}")


def _declared(ip, args, kwargs, node):
    d = COMMANDS
    return _result(ip, f"arguments:command:True:{sorted(((k, canonical(v)) for k, v in d.items()), key=repr)}")


COMMA = "asn1_parser.cli.cli_arg_parser:_parse_comma_separated_string_argument"
INPUT = ("input_paths", "str", "+", False, None, None)
OUT = ("--output-dir", "str", None, False, "", None)
MODULES = ("--asn1-modules", COMMA, None, True, None, None)
COMMANDS = {
    "generate-cosmos": [INPUT, ("--asn1-module", "str", None, True, None, None), ("--asn1-messages", COMMA, None, True, None, None), ("--output-file-name", "str", None, True, None, None), OUT],
    "generate-cfs": [INPUT, MODULES, OUT],
    "generate-c": [INPUT, MODULES, OUT],
    "generate-binary": [INPUT, MODULES, OUT, ("--endianness", "str", None, False, None, ["little-endian", "big-endian"])],
}
arguments._pyvc_impl = _arguments
arguments_as_declared._pyvc_impl = _declared
world.externals[argparse.ArgumentParser] = ArgumentParser
