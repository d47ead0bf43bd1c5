"""What is assumed about textX: model_from_str is a function of the text, the classes, the object processors (by class name) and the
model processors that are registered at that time (and of the grammar, which is fixed here); or it rejects the text."""
import z3
from .schema import *
from pyvc.values import *
from pyvc.builtins import spec_builtin
from pyvc.contract import Reject
import textx


class MetaModel:
    def __init__(self, grammar, classes):
        self.grammar = grammar
        self.classes = classes
        self.processors = {}
        self.model_processors = []

    def register_obj_processors(self, obj_processors):
        self.processors = dict(obj_processors)

    def register_model_processor(self, model_processor):
        self.model_processors.append(model_processor)

    def model_from_str(self, model_str):
        return parsed(self.classes, self.processors, self.model_processors, model_str)


def ghost_metamodel(lang_desc, classes=None):
    return MetaModel(lang_desc, classes)


@spec_builtin
def parsed(classes, processors, model_processors, text):
    """the model that textX makes of the text"""


def _name(ip, f):
    if isinstance(f, str):
        return f
    if isinstance(f, FuncVal) and f.self_arg is None:
        f = f.fn
    if isinstance(f, type) and ip.world.is_repo(f):
        return f.__name__
    c = ip.world.contract_for(f) if hasattr(f, "__code__") else None
    if c is None:
        raise Unsupported(f"processor {getattr(f, '__qualname__', f)} without contract")
    return c.target


def _plain(ip, l):
    if not isinstance(l, (LList, LDict)) or not all(isinstance(i, E) for i in l.items):
        raise Unsupported("registered classes or processors are not constant")
    return [i.v for i in l.items]


def _parsed(ip, args, kwargs, node):
    classes, processors, model_processors, text = args
    cs = sorted({_name(ip, c) for c in _plain(ip, classes)})
    ps = sorted((k, _name(ip, f)) for k, f in _plain(ip, processors))
    ms = [_name(ip, f) for f in _plain(ip, model_processors)]
    shape, terms = ip.encode((text,))
    nm = f"parsed:{cs}:{ps}:{ms}:{shape}"
    ip.raise_if(z3.Not(ip.ctx.func("ok:" + nm, *[t.sort() for t in terms], BoolS)(*terms)), Reject)
    return ip.ctx.mk(ref(Asn1Module), nm, tuple(terms))


parsed._pyvc_impl = _parsed
world.externals[textx.metamodel_from_str] = ghost_metamodel
