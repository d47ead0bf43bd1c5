#!/usr/bin/env python3-vt
"""mut.py MODULE [FILTER] [-n MAX]   soundness test of the verifier: every contract of contracts/MODULE is checked against mutants of the
function it is about; a mutant that is still proved is printed (it must be an equivalent change).
Development aid: mutants are compiled in memory, nothing is written to /repo."""
import ast, copy, inspect, os, sys, textwrap, time, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


class Mut(ast.NodeTransformer):
    def __init__(self, target):
        self.n, self.target, self.what = -1, target, None

    def hit(self, what, node):
        self.n += 1
        if self.n == self.target:
            self.what = f"line {getattr(node, 'lineno', '?')}: {what}"
            return True
        return False

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        for k, o in enumerate(n.ops):
            if self.hit(f"{type(o).__name__} -> {sw[type(o)].__name__}", n):
                n.ops[k] = sw[type(o)]()
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.hit("and <-> or", n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        for k in range(len(n.values)):
            if self.hit(f"operand {k} of and/or dropped", n):
                v = [x for j, x in enumerate(n.values) if j != k]
                return v[0] if len(v) == 1 else ast.copy_location(ast.BoolOp(n.op, v), n)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            if self.hit(f"{n.value} negated", n):
                return ast.copy_location(ast.Constant(not n.value), n)
        elif isinstance(n.value, int):
            if self.hit(f"{n.value} + 1", n):
                return ast.copy_location(ast.Constant(n.value + 1), n)
        elif isinstance(n.value, str) and n.value:
            if self.hit(f"{n.value[:20]!r} changed", n):
                return ast.copy_location(ast.Constant(n.value + "x"), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift}
        if type(n.op) in sw and self.hit(f"{type(n.op).__name__} -> {sw[type(n.op)].__name__}", n):
            n.op = sw[type(n.op)]()
        if isinstance(n.op, ast.Add) and self.hit("left operand of + only", n):
            return n.left
        return n

    def stmts(self, body):
        out = []
        for s in body:
            s2 = self.visit(s)
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if self.hit("statement dropped: " + ast.unparse(s)[:50].replace("\n", " "), s):
                    out.append(ast.copy_location(ast.Pass(), s))
                    continue
            out.append(s2)
        return out or [ast.Pass()]

    def visit_If(self, n):
        n.test = self.visit(n.test)
        if self.hit("condition True", n):
            n.test = ast.copy_location(ast.Constant(True), n.test)
        if self.hit("condition False", n):
            n.test = ast.copy_location(ast.Constant(False), n.test)
        n.body = self.stmts(n.body)
        if n.orelse:
            n.orelse = self.stmts(n.orelse)
        return n

    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        n.body = self.stmts(n.body)
        if self.hit("break after the first iteration", n):
            n.body = n.body + [ast.copy_location(ast.Break(), n)]
        if isinstance(n.iter, (ast.Name, ast.Call, ast.Attribute)) and self.hit("loop reversed", n):
            n.iter = ast.copy_location(ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [n.iter], [])], []), n)
        return n

    def visit_While(self, n):
        n.test = self.visit(n.test)
        n.body = self.stmts(n.body)
        return n

    def visit_With(self, n):
        n.body = self.stmts(n.body)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        for k in range(len(n.ifs)):
            if self.hit("filter dropped", n.ifs[0]):
                n.ifs = []
                break
        return n

    def visit_FunctionDef(self, n):
        n.body = self.stmts(n.body)
        return n

    def visit_Raise(self, n):
        return n

    def visit_arguments(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n


def load(mod):
    import importlib
    from contracts import schema
    for m in ("sizes", "processors", "bundle", "ccode", "generate"):
        importlib.import_module("contracts." + m)
    importlib.import_module("contracts." + mod)
    return schema


def job(a):
    mod, name, k, deadline = a
    schema = load(mod)
    c = next(x for x in schema.CONTRACTS if x.name == name)
    info = schema.world.func_ast(c.fn)
    node = copy.deepcopy(info.node)
    m = Mut(k)
    node = m.visit(node)
    ast.fix_missing_locations(node)
    if m.what is None:
        return None
    info2 = copy.copy(info)
    info2.node = node
    schema.world.asts[c.fn.__code__] = info2
    r = c.verify(schema.world, deadline)
    kinds = sorted({f.kind for f in r.failures})
    return name, m.what, "PROVED" if r.proved else ",".join(kinds) or "vacuous", [f.why[:150] for f in r.failures[:2]]


def main():
    mod = sys.argv[1]
    filt = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else ""
    schema = load(mod)
    jobs = []
    for c in schema.CONTRACTS:
        if c.assumed or c.fn is None or not c.spec.__module__.endswith("." + mod) or filt not in c.name:
            continue
        m = Mut(-1)
        m.visit(copy.deepcopy(schema.world.func_ast(c.fn).node))
        jobs += [(mod, c.name, k, 100) for k in range(m.n + 1)]
    from collections import Counter
    tally = Counter()
    with mp.get_context("fork").Pool(int(os.environ.get("W", "5")), maxtasksperchild=1) as p:
        for r in p.imap(job, jobs):
            if r is None:
                continue
            tally[r[2]] += 1
            if r[2] == "PROVED" or "-v" in sys.argv:
                print(r[2], r[0].split(":")[-1], r[1], r[3], flush=True)
    print(dict(tally))


if __name__ == "__main__":
    main()
