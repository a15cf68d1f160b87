"""mutate.py TOUCHED.json OUT.log [file-filter...] : AST mutants of openleadr, each run against the contracts that interpret
the mutated function.  TOUCHED maps contracts to the functions they interpret."""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('MUT_REPO', '/repo')
touched = json.load(open(sys.argv[1]))
out = open(sys.argv[2], 'a')
done = {l.split('\t')[0] for l in open(sys.argv[2])}
filters = sys.argv[3:]
by = {}
named = json.load(open('/tmp/named.json'))
for c, fs in touched.items():
    for f in fs: by.setdefault(f, []).append(c)
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def silent(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
        and n.func.value.id in ('logger', 'logging')


def mutants(fn):
    """(description, mutated copy of fn)"""
    sites = []

    def visit(n, path, quiet):
        if silent(n) or (isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print'): return
        if isinstance(n, ast.Raise): return
        if isinstance(n, ast.JoinedStr): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.arguments):
            return
        sites.append((path, n))
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST): visit(x, path + [(f, i)], quiet)
            elif isinstance(v, ast.AST): visit(v, path + [(f, None)], quiet)
    for i, s in enumerate(fn.body): visit(s, [('body', i)], False)

    sites.append(([], fn))

    def make(path, change):
        if not path: return change(copy.deepcopy(fn))
        t = copy.deepcopy(fn)
        p = t
        for f, i in path[:-1]:
            p = getattr(p, f)
            if i is not None: p = p[i]
        f, i = path[-1]
        cur = getattr(p, f) if i is None else getattr(p, f)[i]
        new = change(copy.deepcopy(cur))
        if new is None: return None
        if i is None: setattr(p, f, new)
        else: getattr(p, f)[i] = new
        return t
    for path, n in sites:
        at = f"{getattr(n, 'lineno', 0)}:{getattr(n, 'col_offset', 0)}"

        def emit(d, ch):
            return f'{at} {d}', make(path, ch)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def ch(x):
                x.ops = [CMP[type(x.ops[0])]()]
                return x
            yield emit('compare ' + ast.unparse(n)[:60], ch)
        if isinstance(n, ast.BoolOp):
            def ch(x):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
                return x
            yield emit('boolop ' + ast.unparse(n)[:60], ch)
            for k in range(len(n.values)):
                def ch(x, k=k):
                    x.values.pop(k)
                    return x if len(x.values) > 1 else x.values[0]
                yield emit(f'drop operand {k} of ' + ast.unparse(n)[:60], ch)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield emit('drop not ' + ast.unparse(n)[:60], lambda x: x.operand)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) :
            for val in (True, False):
                if isinstance(n, ast.While) and val: continue
                def ch(x, val=val):
                    x.test = ast.Constant(val)
                    return x
                yield emit(f'test {val}: ' + ast.unparse(n.test)[:60], ch)
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool) and isinstance(n.value, int):
            yield emit(f'const {n.value}+1', lambda x: ast.Constant(x.value + 1))
            if n.value > 1: yield emit(f'const {n.value}-1', lambda x: ast.Constant(x.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield emit(f'const not {n.value}', lambda x: ast.Constant(not x.value))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
            yield emit(f'const {n.value[:30]!r}+X', lambda x: ast.Constant(x.value + 'X'))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            def ch(x):
                x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()
                return x
            yield emit('arith ' + ast.unparse(n)[:60], ch)
        if isinstance(n, ast.Return) and n.value is not None:
            yield emit('return None', lambda x: ast.Return(ast.Constant(None)))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)):
            yield emit('delete ' + ast.unparse(n)[:60], lambda x: ast.Pass())
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                def ch(x, k=k):
                    x.keywords.pop(k)
                    return x
                if kw.arg: yield emit(f'drop {kw.arg}= in ' + ast.unparse(n.func)[:50], ch)
            nm = getattr(n.func, 'id', '')
            sw = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}.get(nm)
            if sw:
                def ch(x):
                    x.func.id = sw
                    return x
                yield emit(f'{nm}->{sw}', ch)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'append':
                def ch(x):
                    x.func.attr = 'insert'
                    x.args = [ast.Constant(0)] + x.args
                    return x
                yield emit('append->insert(0)', ch)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy') and not n.args:
                yield emit('drop copy', lambda x: x.func.value)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 1:
                yield emit('get->[]', lambda x: ast.Subscript(x.func.value, x.args[0], ast.Load()))
            pos = [k for k, a in enumerate(n.args) if not isinstance(a, ast.Starred)]
            for k in pos[:-1]:
                def ch(x, k=k):
                    x.args[k], x.args[k + 1] = x.args[k + 1], x.args[k]
                    return x
                if k + 1 in pos: yield emit(f'swap args {k} of ' + ast.unparse(n)[:50], ch)
            for k, kw in enumerate(n.keywords):
                if kw.arg is None: continue
                def ch(x, k=k):
                    x.keywords[k].value = ast.Constant(None)
                    return x
                if not isinstance(kw.value, ast.Constant): yield emit(f'{kw.arg}=None in ' + ast.unparse(n.func)[:50], ch)
            vals = [k for k, kw in enumerate(n.keywords) if kw.arg and isinstance(kw.value, (ast.Name, ast.Attribute))]
            for a, b in zip(vals, vals[1:]):
                def ch(x, a=a, b=b):
                    x.keywords[a].value, x.keywords[b].value = x.keywords[b].value, x.keywords[a].value
                    return x
                yield emit(f'swap {n.keywords[a].arg}/{n.keywords[b].arg} in ' + ast.unparse(n.func)[:50], ch)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            def ch(x):
                x.body = x.body + [ast.Break()]
                return x
            yield emit('first only: ' + ast.unparse(n.iter)[:50], ch)
            def ch(x):
                x.body = [ast.If(ast.Name('_seen', ast.Load()), x.body, [])] if False else x.body
                x.iter = ast.Call(ast.Name('list', ast.Load()), [x.iter], [])
                x.iter = ast.Subscript(x.iter, ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1)), None), ast.Load())
                return x
            yield emit('all but last: ' + ast.unparse(n.iter)[:50], ch)
        if isinstance(n, (ast.ListComp, ast.DictComp)):
            def ch(x):
                g = x.generators[0]
                g.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [g.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
                return x
            yield emit('all but first: ' + ast.unparse(n)[:50], ch)
        if isinstance(n, ast.If) and n.orelse:
            def ch(x):
                x.orelse = []
                return x
            yield emit('drop else of ' + ast.unparse(n.test)[:50], ch)
        if isinstance(n, ast.Try) and n.finalbody:
            def ch(x):
                x.body = x.body + x.finalbody
                x.finalbody = []
                return x
            if n.handlers: yield emit('finally in line', ch)
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if not isinstance(b, list): continue
            ok = (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For)
            for k in range(len(b) - 1):
                if not (isinstance(b[k], ok) and isinstance(b[k + 1], ok)): continue
                if any(isinstance(x, ast.Expr) and (silent(x.value) or isinstance(x.value, ast.Constant)) for x in b[k:k + 2]): continue
                stores = {x.id for x in ast.walk(b[k]) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                loads = {x.id for x in ast.walk(b[k + 1]) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                if stores & loads and isinstance(b[k], ast.Assign) and not all(x in stores for x in loads): pass
                def ch(x, k=k, f=f):
                    l = getattr(x, f)
                    l[k], l[k + 1] = l[k + 1], l[k]
                    return x
                yield emit(f'swap statements {f}[{k}]: ' + ast.unparse(b[k])[:50].split('\n')[0], ch)
        if isinstance(n, ast.Dict):
            vs = [k for k, v in enumerate(n.values) if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) and n.keys[k] is not None]
            for a, b in zip(vs, vs[1:]):
                def ch(x, a=a, b=b):
                    x.values[a], x.values[b] = x.values[b], x.values[a]
                    return x
                yield emit(f'swap entries {a},{b} of dict', ch)
            for k in range(len(n.keys)):
                def ch(x, k=k):
                    x.keys.pop(k)
                    x.values.pop(k)
                    return x
                yield emit(f'drop entry {k} of dict', ch)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and n.generators[0].ifs:
            def ch(x):
                x.generators[0].ifs = []
                return x
            yield emit('drop filter', ch)


def functions(tree, mod):
    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)): yield '.'.join(pre + [c.name]), c
            elif isinstance(c, ast.ClassDef): yield from walk(c, pre + [c.name])
    yield from walk(tree, [mod])


def run(job):
    key, path, src, contracts = job
    W = tempfile.mkdtemp(dir='/tmp/mut')
    try:
        shutil.copytree(REPO + '/openleadr', W + '/openleadr', ignore=shutil.ignore_patterns('__pycache__'))
        open(f'{W}/{path}', 'w').write(src)
        try:
            r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutrun.py'), ','.join(contracts)], capture_output=True, text=True, timeout=400,
                               env={**os.environ, 'VERIF_REPO': W, 'VERIF_EV': W + '/ev'})
            o = r.stdout.strip().split('\n')[-1] or 'NOOUT ' + r.stderr[-150:].replace('\n', ' ')
        except subprocess.TimeoutExpired:
            o = 'TIMEOUT'
    finally:
        if W.startswith('/tmp/mut/'): shutil.rmtree(W, ignore_errors=True)
    return key, o


jobs = []
for root, _, files in os.walk(REPO + '/openleadr'):
    for f in sorted(files):
        if not f.endswith('.py'): continue
        path = os.path.relpath(os.path.join(root, f), REPO)
        mod = path[:-3].replace('/', '.').replace('.__init__', '')
        if filters and not any(x in path for x in filters): continue
        text = open(os.path.join(REPO, path)).read()
        tree = ast.parse(text)
        for q, fn in functions(tree, mod):
            cs = by.get(q)
            if not cs:
                continue
            # the contracts that name the function as a target first, then those that interpret few functions
            cs = sorted(cs, key=lambda c: (('openleadr.' + q if not q.startswith('openleadr') else q)[10:] not in named.get(c, ()), len(touched[c])))[:int(os.environ.get('MUT_CAP', '40'))]
            for d, t in mutants(fn):
                if t is None: continue
                key = f'{q} {d}'
                if key in done: continue
                done.add(key)
                lines = text.split('\n')
                start = min([fn.lineno] + [x.lineno for x in fn.decorator_list]) - 1
                ind = ' ' * fn.col_offset
                body = [ind + l for l in ast.unparse(ast.fix_missing_locations(t)).split('\n')]
                src = '\n'.join(lines[:start] + body + lines[fn.end_lineno:])
                # unparse indents multi-line strings wrongly: docstrings only
                try: ast.parse(src)
                except SyntaxError: continue
                jobs.append((key, path, src, cs))
print(len(jobs), 'mutants', flush=True)
os.makedirs('/tmp/mut', exist_ok=True)
with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS","7"))) as ex:
    for key, o in ex.map(run, jobs):
        out.write(f'{key}\t{o}\n')
        out.flush()
