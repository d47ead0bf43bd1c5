"""What the verifier knows about the repository: classes and their fields,
function ASTs, contracts, external functions."""
import ast
import enum
import importlib
import inspect
import os
import sys
import textwrap
import types
import z3
from .values import *
from . import values

REPO = os.environ.get("APG_REPO", "/repo")


def setup_path():
    for p in (REPO, "/opt/venv/lib/python3.12/site-packages"):
        if p not in sys.path:
            sys.path.insert(0 if p == REPO else len(sys.path), p)
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings("ignore")


class FuncInfo:
    def __init__(self, node, owner):
        self.node, self.owner = node, owner


class World:
    def __init__(self):
        self.lits = {"": 0}
        self.litnames = {0: ""}
        self.tags = {}
        self.tagcls = {}
        self.contracts = {}
        self.externals = {}     # function of a library -> what is assumed about it
        self.asts = {}
        self.canon_map = {}
        self.assigned = {}
        self.strfuncs = {}
        self.fields = {}
        self.invariants = []
        self.ref_types = {}     # classes -> reference type with the facts that hold for every such object
        self.opaque_results = {}
        self.mergeable, self.keep_nodes = {}, []
        self.reset()

    def reset(self):
        """per verification task"""
        self.keep = []
        self.appbools = []
        self.appints = []
        self.counts = []
        self.numfolds = []
        self.skolems = {}
        self.shapes = {}
        self.enumcache = {}
        self.freshnames = set()
        self.mergeable = {}

    # ---- literals and class tags
    def strlit(self, s):
        s = str.__str__(s)
        k = self.lits.get(s)
        if k is None:
            k = self.lits[s] = len(self.lits)
            self.litnames[k] = s
        return k

    def litname(self, k):
        return self.litnames.get(k)

    def tag(self, c):
        if c not in self.tags:
            self.tags[c] = len(self.tags) + 1
            self.tagcls[self.tags[c]] = c
        return self.tags[c]

    # ---- schema
    def declare(self, cls, fields):
        """fields: canonical name -> type"""
        self.fields[cls] = dict(fields)
        # a private attribute under another name: known by the constructor parameter it is set from
        own, free = self._assigned(cls), {}
        for attr, param in own.items():
            for f in ("_" + param, param) if param else ():
                if attr not in fields and f in fields and f not in own:
                    free.setdefault(f, []).append(attr)
        self.canon_map[cls] = {a[0]: f for f, a in free.items() if len(a) == 1}

    def _assigned(self, cls):
        """attributes that the methods of the class set on self -> the parameter of the constructor they are set from, or None"""
        try:
            tree = ast.parse(textwrap.dedent(inspect.getsource(cls))).body[0]
        except (OSError, TypeError, SyntaxError, IndexError):
            return {}
        r = {}
        for m in getattr(tree, "body", ()):
            if not isinstance(m, ast.FunctionDef) or not m.args.args:
                continue
            me, params = m.args.args[0].arg, {a.arg for a in m.args.args[1:]}
            for n in ast.walk(m):
                ts, v = (n.targets, n.value) if isinstance(n, ast.Assign) else ([n.target], n.value) if isinstance(n, ast.AnnAssign) else ([], None)
                for t in ts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        p = v.id if m.name == "__init__" and isinstance(v, ast.Name) and v.id in params else None
                        r[t.attr] = p or r.get(t.attr)
        return r

    def sets(self, cls, attr):
        """the attribute is one that the class sets, although it is not in the schema"""
        for c in cls.__mro__:
            if c not in self.assigned:
                self.assigned[c] = self._assigned(c) if self.is_repo(c) else {}
            if attr in self.assigned[c]:
                return True
        return False

    def _lookup(self, cls, attr):
        for c in cls.__mro__:
            if c in self.fields and attr in self.fields[c]:
                return c, self.fields[c][attr]
        return None

    def has_field(self, classes, attr):
        r = [self._lookup(c, attr) for c in classes]
        if all(x is not None for x in r):
            return True
        if any(x is not None for x in r):
            return False if all(self._method(c, attr) for c, x in zip(classes, r) if x is None) else "mixed"
        return False

    def _method(self, c, attr):
        return hasattr(c, attr)

    def field_info(self, classes, attr):
        r = {}
        for c in classes:
            x = self._lookup(c, attr)
            if x is None:
                raise Unsupported(f"field {attr} of {c.__name__}")
            r[x[0]] = x
        owners = list(r.values())
        if len(owners) == 1:
            o, t = owners[0]
            return o.__name__, attr, t
        raise Unsupported(f"field {attr} in several classes")

    def ref_type(self, classes):
        return self.ref_types.get(tuple(classes)) or ("ref", tuple(classes), False)

    def canon(self, classes, name):
        for c in classes:
            for k in c.__mro__:
                m = self.canon_map.get(k)
                if m and name in m:
                    return m[name]
        return name

    # ---- functions
    def func_ast(self, fn):
        key = fn.__code__
        if key in self.asts:
            return self.asts[key]
        src = textwrap.dedent(inspect.getsource(fn))
        if fn.__name__ == "<lambda>":
            ls = [n for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Lambda)]
            if len(ls) != 1:
                raise Unsupported(f"source of {fn.__qualname__}")
            node = ast.FunctionDef(name="lambda_", args=ls[0].args, body=[ast.copy_location(ast.Return(ls[0].body), ls[0].body)], decorator_list=[], returns=None, type_comment=None)
            node.type_params = []
            node = ast.fix_missing_locations(ast.copy_location(node, ls[0]))
            self.asts[key] = FuncInfo(node, None)
            return self.asts[key]
        node = ast.parse(src).body[0]
        if isinstance(node, ast.Expr) or not isinstance(node, ast.FunctionDef):
            raise Unsupported(f"source of {fn.__qualname__}")
        owner = None
        parts = fn.__qualname__.split(".")
        if len(parts) > 1 and "<locals>" not in parts:
            o = sys.modules.get(fn.__module__)
            for p in parts[:-1]:
                o = getattr(o, p, None)
            owner = o
        self.asts[key] = FuncInfo(node, owner)
        return self.asts[key]

    def is_repo(self, x):
        m = getattr(x, "__module__", "") or ""
        return m.startswith("asn1_parser") or m.startswith("contracts")

    def is_log(self, fn):
        return (fn.__module__ or "").startswith("asn1_parser.log")

    def is_log_call(self, n):
        """<...logger>.debug(...) and print(...): output only, dropped"""
        if not isinstance(n, ast.Call):
            return False
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error", "critical"):
            v = f.value
            nm = v.attr if isinstance(v, ast.Attribute) else (v.id if isinstance(v, ast.Name) else "")
            return "log" in nm.lower()
        return False

    def quiet_ok(self, node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Call, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr, ast.Subscript, ast.BinOp, ast.IfExp)):
                return False
        return True

    def invariant_for(self, ip, fr, node):
        """what to run instead of the loop, if the contract being verified
        states an invariant for it"""
        if ip.active is None or ip.active.loops is None:
            return None
        return ip.active.loops(ip, fr, node)

    # ---- contracts
    def add_contract(self, c):
        self.contracts[c.fn.__code__] = c

    def contract_for(self, fn):
        return self.contracts.get(fn.__code__)

    def apply_contract(self, ip, c, fn, args, kwargs, node):
        return c.apply(ip, fn, args, kwargs, node)


def resolve(target):
    """'module:Qual.name' -> python function (raw)"""
    mod, qn = target.split(":")
    o = importlib.import_module(mod)
    for p in qn.split("."):
        o = inspect.getattr_static(o, p)
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return o
