"""Behaviour-preserving rewrites of a copy of the repository, to test that the checks stay quiet.
usage: refactor.py KIND SRC DST   (KIND: noop rename wrap ifswap loops temps fstring extract dicts compare modalias)"""
import ast, sys, os, shutil, copy

KINDS = 'noop rename wrap ifswap loops temps fstring extract dicts compare'.split()
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def doc(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0


class Noop(ast.NodeTransformer):
    def visit_fn(self, n):
        self.generic_visit(n)
        n.body.insert(doc(n.body), ast.parse('_unused = 0').body[0])
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = visit_fn


def own_locals(fn):
    """names stored in fn (nested functions included), less parameters, globals and imports"""
    params, stores, bad = set(), set(), set()
    for n in ast.walk(fn):
        if isinstance(n, FN + (ast.Lambda,)):
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]: params.add(x.arg)
            if n is not fn and isinstance(n, FN): bad.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): stores.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)): bad.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names: bad.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name: bad.add(n.name)
    return stores - params - bad


class Rename(ast.NodeTransformer):
    def visit_fn(self, n):
        names = own_locals(n)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names: x.id = x.id + '_v'
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = visit_fn


class Wrap(ast.NodeTransformer):
    def __init__(self): self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append(n)
        n.body = self.stmts(n.body)
        self.cls.pop()
        return n

    def visit_Module(self, n):
        n.body = self.stmts(n.body)
        return n

    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef): out.append(self.visit(s)); continue
            if not isinstance(s, FN) or s.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) \
                    or any(isinstance(x, ast.Name) and x.id in ('super', 'globals', 'locals') for x in ast.walk(s)) or s.name in ('__init__',):
                out.append(s)
                continue
            inner = copy.deepcopy(s)
            inner.name = 'do_' + s.name.rstrip('_') + '_impl'
            a = s.args
            call_args = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args]
            if a.vararg: call_args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
            kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
            if a.kwarg: kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
            if self.cls:
                f = ast.Attribute(call_args.pop(0), inner.name, ast.Load())
            else:
                f = ast.Name(inner.name, ast.Load())
            call = ast.Call(f, call_args, kws)
            if isinstance(s, ast.AsyncFunctionDef): call = ast.Await(call)
            s.body = [ast.Return(call)]
            out += [inner, s]
        return out


class IfSwap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Loops(ast.NodeTransformer):
    n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse: return n
        Loops.n += 1
        it = f'_it{Loops.n}'
        new = ast.parse(f'{it} = iter(X)\nwhile True:\n    try:\n        Y = next({it})\n    except StopIteration:\n        break\n').body
        new[0].value.args[0] = n.iter
        new[1].body[0].body[0].targets[0] = n.target
        new[1].body += n.body
        return new

    def comp(self, n, mk):
        v = n.value
        if not isinstance(v, ast.ListComp) or len(v.generators) != 1 or v.generators[0].is_async: return n
        g = v.generators[0]
        Loops.n += 1
        t = f'_l{Loops.n}'
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs): body = [ast.If(c, body, [])]
        loop = ast.For(g.target, g.iter, body, [])
        n.value = ast.Name(t, ast.Load())
        return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), loop, n]

    def visit_Assign(self, n): return self.comp(n, None)
    def visit_Return(self, n): return self.comp(n, None) if n.value is not None else n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, FN) else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, FN + (ast.ClassDef,)) else s for s in n.body]
        return n


class Temps(ast.NodeTransformer):
    n = 0

    def visit_Return(self, n):
        if n.value is None: return n
        return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        Temps.n += 1
        t = f'cond{Temps.n}_'
        test, n.test = n.test, ast.Name(t, ast.Load())
        return [ast.Assign([ast.Name(t, ast.Store())], test), n]


class FStr(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        fmt, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant): fmt += v.value.replace('{', '{{').replace('}', '}}')
            elif v.format_spec is None and v.conversion == -1:
                fmt += '{}'
                args.append(self.visit(v.value))
            else: return n
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


class Extract(ast.NodeTransformer):
    def __init__(self): self.new, self.scope = [], []

    def visit_fn(self, n):
        if self.scope: return n
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(n):
            if isinstance(x, ast.arg): names.add(x.arg)
            if isinstance(x, FN) and x is not n: names.add(x.name)
            if isinstance(x, ast.ExceptHandler) and x.name: names.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names: names.add((al.asname or al.name).split('.')[0])
        self.scope.append(names)
        self.generic_visit(n)
        self.scope.pop()
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = visit_fn

    def visit_If(self, n):
        self.generic_visit(n)
        if not self.scope or any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp))
                                 or (isinstance(x, ast.Name) and x.id in ('globals', 'locals')) for x in ast.walk(n.test)): return n
        used = sorted({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and x.id in self.scope[-1]})
        name = f'_condition_{len(self.new)}'
        f = ast.parse(f'def {name}({", ".join(used)}):\n    return 0').body[0]
        f.body[0].value = n.test
        self.new.append(f)
        n.test = ast.Call(ast.Name(name, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
        return n


class Dicts(ast.NodeTransformer):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys) \
                and not any(k.value in ('from', 'class', 'None') for k in n.keys):
            return ast.Call(ast.Name('dict', ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class Compare(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1: return n
        op = n.ops[0]
        opp = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}
        for a, b in opp.items():
            if isinstance(op, a):
                n.ops = [b()]
                return ast.UnaryOp(ast.Not(), n)
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        for a, b in flip.items():
            if isinstance(op, a):
                return ast.Compare(n.comparators[0], [b()], [n.left])
        return n


def transform(kind, tree):
    t = {'noop': Noop, 'rename': Rename, 'wrap': Wrap, 'ifswap': IfSwap, 'loops': Loops, 'temps': Temps, 'fstring': FStr,
         'extract': Extract, 'dicts': Dicts, 'compare': Compare}[kind]()
    tree = t.visit(tree)
    if kind == 'extract': tree.body += t.new
    return ast.fix_missing_locations(tree)


def main(kinds, src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, symlinks=True)
    for d, _, fs in os.walk(os.path.join(dst, 'openleadr')):
        for f in fs:
            if f.endswith('.py') and f not in ('enums.py', '__init__.py'):
                p = os.path.join(d, f)
                tree = ast.parse(open(p).read())
                for k in kinds.split('+'): tree = transform(k, tree)
                open(p, 'w').write(ast.unparse(tree) + '\n')


if __name__ == '__main__': main(*sys.argv[1:])
