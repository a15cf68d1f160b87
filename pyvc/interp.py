"""AST-level symbolic interpreter for Python functions read from their source files."""
import ast
import builtins
import dataclasses
import inspect
import operator
import os
import types
from collections import OrderedDict, defaultdict
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import z3
from .values import *
from .path import Budget, Infeasible, MergeFail

INF = float('inf')
MISSING = object()


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass


# ------------------------------------------------------------------ source access
_SRC = {}


def _index_file(fn):
    idx = _SRC.get(fn)
    if idx is None:
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, fn)
        idx = {}

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                    idx[(line, ch.name)] = ch
                    walk(ch, qual + [ch.name])
                elif isinstance(ch, ast.Lambda):
                    idx.setdefault((ch.lineno, '<lambda>'), []).append(ch)
                    walk(ch, qual)
                else:
                    walk(ch, qual)
        walk(tree, [])
        if '/contracts/' not in fn and '/pyvc/' not in fn:
            for n in ast.walk(tree): n.verif_merge = True
        _SRC[fn] = idx
    return idx


def ast_of(fn):
    code = fn.__code__
    idx = _index_file(code.co_filename)
    n = idx.get((code.co_firstlineno, code.co_name))
    if isinstance(n, list):
        if len(n) != 1:
            raise Unsupported("ambiguous lambda")
        n = n[0]
    if n is None:
        raise Unsupported(f"no source for {fn}")
    return n


def interpretable(fn, roots):
    return isinstance(fn, types.FunctionType) and any(fn.__code__.co_filename.startswith(r) for r in roots)


_ASSIGNED = {}


def assigned_names(node):
    """Names local to a function (parameters excluded)."""
    r = _ASSIGNED.get(node)
    if r is not None:
        return r
    names, outer = set(), set()

    def tgt(t):
        if isinstance(t, ast.Name): names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            visit(ch)

    def visit(ch):
        if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(ch.name)
            for d in getattr(ch, 'decorator_list', []): visit(d)
            return
        if isinstance(ch, ast.Lambda):
            return
        if isinstance(ch, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # targets are local to the comprehension; walrus targets leak (rare)
            for w in ast.walk(ch):
                if isinstance(w, ast.NamedExpr): tgt(w.target)
            return
        if isinstance(ch, (ast.Global, ast.Nonlocal)):
            outer.update(ch.names)
        elif isinstance(ch, ast.Assign):
            for t in ch.targets: tgt(t)
        elif isinstance(ch, (ast.AugAssign, ast.AnnAssign)):
            if not (isinstance(ch, ast.AnnAssign) and ch.value is None): tgt(ch.target)
        elif isinstance(ch, (ast.For, ast.AsyncFor)):
            tgt(ch.target)
        elif isinstance(ch, (ast.With, ast.AsyncWith)):
            for i in ch.items:
                if i.optional_vars is not None: tgt(i.optional_vars)
        elif isinstance(ch, ast.ExceptHandler):
            if ch.name: names.add(ch.name)
        elif isinstance(ch, (ast.Import, ast.ImportFrom)):
            for a in ch.names: names.add((a.asname or a.name).split('.')[0])
        elif isinstance(ch, ast.NamedExpr):
            tgt(ch.target)
        elif isinstance(ch, ast.Delete):
            for t in ch.targets: tgt(t)
        walk(ch)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body: visit(s)
    r = (frozenset(names - outer), frozenset(outer))
    _ASSIGNED[node] = r
    return r


class Env:
    __slots__ = ('vars', 'parent', 'globs', 'locals', 'outer', 'comp', 'cls', 'selfv')

    def __init__(self, globs, parent=None, locals_=frozenset(), outer=frozenset(), comp=False, cls=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.locals = locals_
        self.outer = outer
        self.comp = comp
        self.cls = cls
        self.selfv = None


def native_exc(e):
    inst = HInst(None, type(e), {'args': tuple(e.args)})
    return PyExc(inst)


_MERGEABLE = {}


def merge_ok_file(node):
    """Only code of the repository is joined; contract text (with its checks) forks."""
    return getattr(node, 'verif_merge', False)


def mergeable(s):
    r = _MERGEABLE.get(s)
    if r is None:
        r = merge_ok_file(s)
        if r:
            st = list(s.body) + list(s.orelse)
            while st:
                n = st.pop()
                if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Await, ast.Yield)):
                    r = False
                    break
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)): continue
                st.extend(ast.iter_child_nodes(n))
        _MERGEABLE[s] = r
    return r


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = _GEN[node] = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
    return r


_SUBBOOL = {}


def sub_boolop(n, i):
    r = _SUBBOOL.get((n, i))
    if r is None:
        r = ast.BoolOp(op=n.op, values=n.values[i:])
        r.verif_merge = True
        ast.copy_location(r, n)
        _SUBBOOL[(n, i)] = r
    return r


class Interp:
    MAX_STEPS = 400000

    def __init__(self, world, path, roots):
        self.w = world
        self.p = path
        self.roots = roots
        self.steps = 0
        self.depth = 0
        self.exc_stack = []
        self.merge_no = 0
        self._disp = {}
        self.touched = world.touched if world else set()
        from . import intrinsics
        self.intr = intrinsics

    # ------------------------------------------------------------ helpers
    def raise_(self, cls, *args):
        raise PyExc(HInst(self.p, cls, {'args': tuple(args)}))

    def decide(self, c):
        return self.p.decide(c)

    def force(self, v):
        while isinstance(v, SUnion):
            for g, val in v.alts[:-1]:
                if self.decide(g):
                    v = val
                    break
            else:
                g, v = v.alts[-1]
        return v

    def fresh_int(self, hint): return SInt(self.p.fresh(z3.IntSort(), hint))
    def fresh_bool(self, hint): return SBool(self.p.fresh(z3.BoolSort(), hint))

    # ------------------------------------------------------------ truth
    def truth_term(self, v):
        """z3 Bool / bool for the truth value; forks only on unions."""
        v = self.force(v)
        if v is None: return False
        if isinstance(v, SBool): return v.t
        if isinstance(v, (SInt, SReal)): return v.t != 0
        if isinstance(v, SAtom): return v.t != intern('')
        if isinstance(v, SText): return z3.Length(v.t) > 0
        if isinstance(v, SFmt):
            if any(isinstance(p, str) and p for p in v.parts): return True
            if any(isinstance(p, (SInt, SReal, SDT, STD)) or isinstance(p, tuple) and p[0] in ('fmt', 'digits')
                   for p in v.parts): return True
            raise Unsupported("truth of formatted string")
        if isinstance(v, STD): return v.us != 0
        if isinstance(v, SDT): return True
        if isinstance(v, SOpq): return True
        if isinstance(v, HList):
            return self.len_term(v, boolean=True)
        if isinstance(v, HSet): return len(v.items) > 0
        if isinstance(v, HDict):
            if v.openf is not None:
                raise Unsupported("truth of an open dict") if not hasattr(v, 'nonempty') else None
            for e in v.ents:
                if e.present is True: return True
            ps = [e.present for e in v.ents if e.present is not False]
            if not ps: return False
            return z3.Or(*ps)
        if isinstance(v, HInst):
            m = self.class_attr(v.cls, '__bool__')
            if m is not MISSING: return self.truth_term(self.call(self.bind(v, m, v.cls), [], {}))
            m = self.class_attr(v.cls, '__len__')
            if m is not MISSING and interpretable(m, self.roots):
                return self.truth_term(self.call(self.bind(v, m, v.cls), [], {}))
            return True
        if isinstance(v, (FuncVal, BMethod, NativeFn, CoroVal, GenVal)): return True
        return bool(v)

    def truth(self, v):
        return self.decide(self.truth_term(v))

    # ------------------------------------------------------------ numbers
    def num(self, v):
        """-> ('i'|'r', term or python number)"""
        if isinstance(v, SInt): return 'i', v.t
        if isinstance(v, SReal): return 'r', v.t
        if isinstance(v, SBool): return 'i', z3.If(v.t, 1, 0)
        if isinstance(v, bool): return 'i', int(v)
        if isinstance(v, int): return 'i', v
        if isinstance(v, float):
            if v in (INF, -INF) or v != v: return 'inf', v
            fr = Fraction(v)
            return 'r', z3.RealVal(f"{fr.numerator}/{fr.denominator}")
        return None

    @staticmethod
    def to_real(t):
        if isinstance(t, int): return z3.RealVal(t)
        return z3.ToReal(t) if t.sort() == z3.IntSort() else t

    def mk_int(self, t):
        if isinstance(t, int): return t
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        return SInt(t)

    def mk_real(self, t):
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            fr = Fraction(t.numerator_as_long(), t.denominator_as_long())
            f = float(fr)
            if Fraction(f) == fr:
                return f
        return SReal(t)

    def mk_bool(self, t):
        if t is True or t is False: return t
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return SBool(t)

    def mk_dt(self, us, aware):
        if not isinstance(us, int):
            us = z3.simplify(us)
            if z3.is_int_value(us): us = us.as_long()
        if isinstance(us, int):
            try:
                return (EPOCH if aware else NEPOCH) + timedelta(microseconds=us)
            except OverflowError as e:
                raise native_exc(e)
        return SDT(us, aware)

    def mk_td(self, us):
        if not isinstance(us, int):
            us = z3.simplify(us)
            if z3.is_int_value(us): us = us.as_long()
        if isinstance(us, int):
            try:
                return timedelta(microseconds=us)
            except OverflowError as e:
                raise native_exc(e)
        return STD(us)

    # ------------------------------------------------------------ equality
    def eq(self, a, b):
        """Python == as bool or z3 Bool."""
        if a is b:
            return True
        if isinstance(a, SUnion) or isinstance(b, SUnion):
            if not isinstance(a, SUnion): a, b = b, a
            out, none_before = [], []
            for k, (g, v) in enumerate(a.alts):
                last = k == len(a.alts) - 1
                e = self.eq(v, b)
                conds = [z3.Not(x) for x in none_before]
                if not last: conds.append(g)
                if e is not False:
                    if e is not True: conds.append(e)
                    out.append(z3.And(*conds) if conds else z3.BoolVal(True))
                none_before.append(g)
            if not out: return False
            return z3.simplify(z3.Or(*out))
        if a is None or b is None:
            return False
        if not is_sym(a) and not is_sym(b) and fully_concrete(a) and fully_concrete(b):
            try:
                return bool(a == b)
            except Exception as e:
                raise native_exc(e)
        na, nb = self.num(a), self.num(b)
        if na and nb:
            if 'inf' in (na[0], nb[0]):
                return na[0] == nb[0] and na[1] == nb[1]
            ta, tb = na[1], nb[1]
            if na[0] != nb[0]: ta, tb = self.to_real(ta), self.to_real(tb)
            return self._b(ta == tb)
        if na or nb:
            return False
        if is_strlike(a) and is_strlike(b):
            return self.str_eq(a, b)
        if is_strlike(a) or is_strlike(b):
            return False
        if isinstance(a, (SDT, datetime)) and isinstance(b, (SDT, datetime)):
            if dt_aware(a) != dt_aware(b): return False
            return self._b(dt_us(a) == dt_us(b))
        if isinstance(a, (STD, timedelta)) and isinstance(b, (STD, timedelta)):
            return self._b(td_us(a) == td_us(b))
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            return self._b(a.t == b.t)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, HList) or isinstance(b, HList):
            la = a.items if isinstance(a, HList) else a if isinstance(a, list) else None
            lb = b.items if isinstance(b, HList) else b if isinstance(b, list) else None
            if la is None or lb is None: return False
            if any(isinstance(x, SymSeg) for x in la) or any(isinstance(x, SymSeg) for x in lb):
                raise Unsupported("== of lists of symbolic length")
            if len(la) != len(lb): return False
            return self.conj([self.eq(x, y) for x, y in zip(la, lb)])
        if isinstance(a, HDict) and isinstance(b, HDict):
            if a.openf or b.openf: raise Unsupported("== of open dicts")
            def pb(e): return z3.BoolVal(True) if e.present is True else e.present
            cs = []
            for x, y in ((a, b), (b, a)):
                for e in x.ents:
                    if e.present is False: continue
                    alts = []
                    for f in y.ents:
                        if f.present is False: continue
                        q = self.eq(e.key, f.key)
                        if q is False: continue
                        c = self.conj([q, True if f.present is True else f.present,
                                       self.eq(e.value, f.value) if x is a else True])
                        alts.append(c)
                        if q is True: break
                    c = self.disj(alts)
                    if c is True: continue
                    if c is False and e.present is True: return False
                    cs.append(self.disj([z3.Not(pb(e)), c]) if e.present is not True else c)
            return self.conj(cs)
        if isinstance(a, HDict) and isinstance(b, dict) or isinstance(b, HDict) and isinstance(a, dict):
            if isinstance(b, HDict): a, b = b, a
            return self.eq(a, self.lift(b))
        if isinstance(a, HInst) and isinstance(b, HInst):
            if dataclasses.is_dataclass(a.cls) and '__eq__' in a.cls.__dict__ and \
                    not interpretable(a.cls.__dict__['__eq__'], self.roots):
                if a.cls is not b.cls: return False
                if a is b: return True
                cs = []
                for f in dataclasses.fields(a.cls):
                    if not f.compare: continue
                    vs = []
                    for o in (a, b):
                        if f.name in o.fields: vs.append(o.fields[f.name])
                        elif f.name in o.cls.__dict__: vs.append(self.lift(o.cls.__dict__[f.name]))
                        else: raise Unsupported(f"comparison of a partially built {a.cls.__name__}")
                    cs.append(self.eq(vs[0], vs[1]))
                return self.conj(cs)
            m = self.class_attr(a.cls, '__eq__')
            if interpretable(m, self.roots):
                return self.truth_term(self.call(self.bind(a, m, a.cls), [b], {}))
            return False
        if isinstance(a, HSet) or isinstance(b, HSet):
            if not (isinstance(a, HSet) and isinstance(b, HSet)): return False
            cs = []
            for x, y in ((a, b), (b, a)):
                for i in x.items:
                    cs.append(self.disj([self.eq(i, j) for j in y.items]))
            return self.conj(cs)
        if isinstance(a, BMethod) and isinstance(b, BMethod):
            return a.self_ is b.self_ and self.eq_fn(a.func, b.func)
        return False

    def eq_fn(self, f, g):
        if f is g: return True
        return isinstance(f, FuncVal) and isinstance(g, FuncVal) and f.node is g.node and f.env is g.env

    @staticmethod
    def _b(t):
        if t is True or t is False: return t
        if isinstance(t, bool): return t
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return t

    @staticmethod
    def conj(cs):
        out = []
        for c in cs:
            if c is True: continue
            if c is False: return False
            out.append(c)
        if not out: return True
        return out[0] if len(out) == 1 else z3.And(*out)

    @staticmethod
    def disj(cs):
        out = []
        for c in cs:
            if c is False: continue
            if c is True: return True
            out.append(c)
        if not out: return False
        return out[0] if len(out) == 1 else z3.Or(*out)

    def fmt_norm(self, v):
        """string value -> list of parts (str merged), parts are str or Sym"""
        parts = []

        def put(x):
            if isinstance(x, str):
                if not x: return
                if parts and isinstance(parts[-1], str): parts[-1] += x
                else: parts.append(x)
            else:
                parts.append(x)
        for x in (v.parts if isinstance(v, SFmt) else [v]):
            if isinstance(x, SFmt):
                for y in self.fmt_norm(x): put(y)
            elif isinstance(x, (bool, int, float)) or x is None:
                put(str(x))
            elif isinstance(x, HInst) and '_s' in x.fields:
                put(x.fields['_s'])
            else:
                put(x)
        return parts

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, SAtom) and isinstance(b, SAtom): return self._b(a.t == b.t)
        if isinstance(a, SText) and isinstance(b, SText): return self._b(a.t == b.t)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SAtom) and isinstance(y, str):
                if x.choices is not None and y not in x.choices: return False
                return self._b(x.t == intern(y))
            if isinstance(x, SText) and isinstance(y, str): return self._b(x.t == z3.StringVal(y))
        pa, pb = self.fmt_norm(a), self.fmt_norm(b)
        if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], (SAtom, SText, str)) \
                and isinstance(pb[0], (SAtom, SText, str)) and (pa[0] is not a or pb[0] is not b):
            return self.str_eq(pa[0], pb[0])
        if len(pa) == 0 or len(pb) == 0:
            if not pa and not pb: return True
            rest = pa or pb
            if any(isinstance(x, (str, SInt)) for x in rest): return False
        if len(pa) == len(pb):
            # same skeleton: literal parts equal, and value parts pairwise comparable
            ok, cs = True, []
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y: ok = False; break
                elif isinstance(x, SInt) and isinstance(y, SInt):
                    cs.append(x.t == y.t)
                elif x is y: pass
                elif type(x) is type(y) and not isinstance(x, (HObj, SText)):
                    cs.append(self.eq(x, y))
                    if not isinstance(x, (SInt,)) and len(pa) > 1: ok = None
                else: ok = None; break
            if ok: return self._b(self.conj(cs))
            if ok is False and all(isinstance(x, str) for x in pa + pb): return False
        if pa and pb and all(isinstance(x, (str, SText)) for x in pa + pb):
            cat = [[x.t if isinstance(x, SText) else z3.StringVal(x) for x in ps] for ps in (pa, pb)]
            l, r = [c[0] if len(c) == 1 else z3.Concat(*c) for c in cat]
            return self._b(l == r)
        # int tokens against a literal
        for x, y in ((pa, pb), (pb, pa)):
            if len(y) == 1 and isinstance(y[0], str) and len(x) == 1 and isinstance(x[0], SReal):
                # the text of a float
                try: n = float(y[0])
                except ValueError: return False
                return self._b(x[0].t == z3.RealVal(repr(n))) if str(n) == y[0] and 'e' not in y[0] and 'n' not in y[0] else False
            if len(y) == 1 and isinstance(y[0], str):
                if any(isinstance(z, str) and z not in y[0] for z in x): return False
                r = self._match_lit(x, y[0])
                if r is not None: return r
        if len(pa) == 1 and isinstance(pa[0], SInt) and len(pb) == 1 and isinstance(pb[0], str): pass
        if self.w is not None:
            self.p.abstract = True
        return self.p.fresh(z3.BoolSort(), 'streq')

    def _match_lit(self, parts, lit):
        """[str|SInt...] == literal, where no two SInt parts are adjacent and separators are not digits."""
        import re
        rx, ints = '', []
        prev_int = False
        for x in parts:
            if isinstance(x, str):
                if prev_int and x[:1].isdigit(): return None
                rx += re.escape(x); prev_int = False
            elif isinstance(x, SInt):
                if prev_int: return None
                rx += r'(-?(?:0|[1-9]\d*))'; ints.append(x); prev_int = True
            else:
                return None
        m = re.fullmatch(rx, lit)
        if not m: return False
        return self._b(self.conj([i.t == int(g) for i, g in zip(ints, m.groups()) ]))

    def is_(self, a, b):
        if a is b: return True
        if isinstance(a, SUnion) or isinstance(b, SUnion):
            if not isinstance(a, SUnion): a, b = b, a
            out, before = [], []
            for k, (g, v) in enumerate(a.alts):
                e = self.is_(v, b)
                conds = [z3.Not(x) for x in before]
                if k < len(a.alts) - 1: conds.append(g)
                if e is not False:
                    if e is not True: conds.append(e)
                    out.append(z3.And(*conds) if conds else z3.BoolVal(True))
                before.append(g)
            return self._b(z3.Or(*out)) if out else False
        if isinstance(a, HObj) or isinstance(b, HObj): return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, bool) and isinstance(y, SBool):
                return self._b(y.t if x else z3.Not(y.t))
            if x is None: return False
        if isinstance(a, SBool) and isinstance(b, SBool): return self._b(a.t == b.t)
        if isinstance(a, SOpq) and isinstance(b, SOpq): return self._b(a.t == b.t)
        if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)): return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            if is_strlike(a) and is_strlike(b): return self.str_eq(a, b)
            if type(a) is type(b): return self.eq(a, b)
            return False
        if isinstance(a, BMethod) and isinstance(b, BMethod): return False
        if isinstance(a, (str, int, float)) and type(a) is type(b): return a == b
        return False

    def contains(self, container, x):
        c = self.force(container)
        if isinstance(c, HDict):
            x = self.force(x)
            return self.dict_find(c, x) is not None
        if isinstance(c, HList):
            if c.concrete:
                return self.disj([self._b2(self.is_or_eq(i, x)) for i in c.items])
            return self.w.seq_contains(self, c, x)
        if isinstance(c, HSet):
            return self.disj([self._b2(self.is_or_eq(i, x)) for i in c.items])
        if isinstance(c, (tuple, list, set, frozenset)) or isinstance(c, type({}.keys())) or \
                isinstance(c, type({}.values())):
            x = self.force(x) if not all(isinstance(i, str) for i in c) else x
            return self.disj([self._b2(self.is_or_eq(i, x)) for i in c])
        if isinstance(c, dict):
            x = self.force(x)
            if fully_concrete(x):
                try: return x in c
                except TypeError as e: raise native_exc(e)
            return self.disj([self._b2(self.eq(i, x)) for i in c])
        if isinstance(c, GenVal):
            for i in self.iterate(c):
                if self.decide(self._b2(self.is_or_eq(i, x))): return True
            return False
        if is_strlike(c):
            x = self.force(x)
            return self.intr.str_contains(self, c, x)
        if isinstance(c, HInst):
            m = self.class_attr(c.cls, '__contains__')
            if m is not MISSING: return self.truth_term(self.call(self.bind(c, m, c.cls), [x], {}))
        if c is None or is_num(c):
            self.raise_(TypeError, f"argument of type '{self.pytype(c).__name__}' is not iterable")
        if not is_sym(c) and fully_concrete(x):
            try: return x in c
            except Exception as e: raise native_exc(e)
        raise Unsupported(f"in on {c!r}")

    def _b2(self, t): return t

    def is_or_eq(self, a, b):
        if a is b: return True
        return self.eq(a, b)

    # ------------------------------------------------------------ comparison
    def cmp(self, op, a, b):
        for k, u in enumerate((a, b)):
            if isinstance(u, SUnion) and not any(isinstance(v, HObj) for _, v in u.alts):
                try:
                    r, none_before = [], []
                    for i, (g, v) in enumerate(u.alts):
                        conds = list(none_before)
                        if g is not None: conds.append(g)
                        if conds and self.p.check(*conds) == z3.unsat:
                            if g is not None: none_before.append(z3.Not(g))
                            continue
                        c = self.cmp(op, v, b) if k == 0 else self.cmp(op, a, v)
                        r.append(self.conj(conds + [c]))
                        if g is not None: none_before.append(z3.Not(g))
                    return self.disj(r)
                except PyExc:
                    pass
        a, b = self.force(a), self.force(b)
        if not is_sym(a) and not is_sym(b):
            f = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op]
            if fully_concrete(a) and fully_concrete(b):
                try: return f(a, b)
                except Exception as e: raise native_exc(e)
        na, nb = self.num(a), self.num(b)
        if na and nb:
            ta, tb = na[1], nb[1]
            if 'inf' in (na[0], nb[0]):
                if na[0] == 'inf' and nb[0] == 'inf': x, y = ta, tb
                elif na[0] == 'inf': x, y = ta, 0.0
                else: x, y = 0.0, tb
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
            if na[0] != nb[0]: ta, tb = self.to_real(ta), self.to_real(tb)
        elif isinstance(a, (SDT, datetime)) and isinstance(b, (SDT, datetime)):
            if dt_aware(a) != dt_aware(b):
                self.raise_(TypeError, "can't compare offset-naive and offset-aware datetimes")
            ta, tb = dt_us(a), dt_us(b)
        elif isinstance(a, (STD, timedelta)) and isinstance(b, (STD, timedelta)):
            ta, tb = td_us(a), td_us(b)
        elif isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, a, b)
        elif isinstance(a, (SAtom, SText, SFmt)) and is_strlike(b) or is_strlike(a) and isinstance(b, (SAtom, SText, SFmt)):
            raise Unsupported("ordering of symbolic strings")
        else:
            self.raise_(TypeError, f"'{op}' not supported between instances of "
                                   f"'{self.pytype(a).__name__}' and '{self.pytype(b).__name__}'")
        return self._b({'<': lambda: ta < tb, '<=': lambda: ta <= tb,
                        '>': lambda: ta > tb, '>=': lambda: ta >= tb}[op]())

    def lex(self, op, a, b):
        if not a or not b:
            f = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op]
            return f(len(a), len(b))
        e = self.eq(a[0], b[0])
        if e is True: return self.lex(op, a[1:], b[1:])
        strict = op[0]
        lt = self.cmp(strict, a[0], b[0])
        if e is False: return lt
        return self.disj([lt, self.conj([e, self.lex(op, a[1:], b[1:])])])

    # ------------------------------------------------------------ types
    def pytype(self, v):
        if isinstance(v, SBool): return bool
        if isinstance(v, SInt): return int
        if isinstance(v, SReal): return float
        if isinstance(v, (SAtom, SText, SFmt)): return str
        if isinstance(v, SDT): return datetime
        if isinstance(v, STD): return timedelta
        if isinstance(v, SOpq): return self.intr.OPQ_TYPES.get(v.kind, self.intr.OpaqueType)
        if isinstance(v, HList): return list
        if isinstance(v, HDict): return v.cls
        if isinstance(v, HSet): return set
        if isinstance(v, HInst): return v.cls
        if isinstance(v, FuncVal): return types.FunctionType
        if isinstance(v, BMethod): return types.MethodType
        if isinstance(v, NativeFn): return types.BuiltinFunctionType
        if isinstance(v, CoroVal): return types.CoroutineType
        if isinstance(v, GenVal): return types.GeneratorType
        return type(v)

    def isinstance_(self, v, cls):
        v = self.force(v)
        cls = self.force(cls)
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if cls in self.w.iso_types:
            cls = self.w.iso_types[cls]
        t = self.pytype(v)
        if not isinstance(cls, type):
            if hasattr(cls, '__instancecheck__') or hasattr(cls, '__origin__'):
                raise Unsupported("isinstance with a generic")
            self.raise_(TypeError, "isinstance() arg 2 must be a type")
        try:
            return issubclass(t, cls)
        except TypeError as e:
            raise native_exc(e)

    # ------------------------------------------------------------ lift concrete containers to heap
    def lift(self, v, depth=0):
        """Native list/dict/set constants -> fresh heap objects (the constant itself stays untouched)."""
        if isinstance(v, list): return HList(self.p, [self.lift(x) for x in v])
        if isinstance(v, dict) and not isinstance(v, defaultdict):
            return HDict(self.p, [Ent(k, self.lift(x)) for k, x in v.items()], cls=type(v))
        if isinstance(v, set): return HSet(self.p, list(v))
        return v

    # ------------------------------------------------------------ dict
    def check_hashable(self, key):
        k = self.force(key)
        if isinstance(k, (HList, HDict, HSet)):
            self.raise_(TypeError, f"unhashable type: '{self.pytype(k).__name__}'")
        if isinstance(k, HInst) and dataclasses.is_dataclass(k.cls) and k.cls.__hash__ is None:
            self.raise_(TypeError, f"unhashable type: '{k.cls.__name__}'")
        if isinstance(k, tuple):
            return tuple(self.check_hashable(x) for x in k)
        if isinstance(k, (list, dict, set)):
            self.raise_(TypeError, f"unhashable type: '{type(k).__name__}'")
        return k

    def dict_find(self, d, key):
        key = self.check_hashable(key)
        for e in d.ents:
            q = self.eq(e.key, key)
            if q is False: continue
            if self.decide(q):
                if e.present is True: return e
                if e.present is False: return None
                if self.decide(e.present):
                    e.present = True
                    return e
                e.present = False
                return None
        if d.openf is not None:
            present, value = d.openf(self, key)
            e = Ent(key, value, present)
            d.ents.append(e)
            if self.decide(present):
                e.present = True
                return e
            e.present = False
        return None

    def dict_get(self, d, key):
        e = self.dict_find(d, key)
        if e is None:
            if d.default_factory is not None:
                v = self.call(d.default_factory, [], {})
                self.dict_set(d, key, v)
                return v
            self.raise_(KeyError, key)
        return e.value

    def dict_set(self, d, key, value):
        e = self.dict_find(d, key)
        if e is not None:
            e.value = value
        else:
            key = self.check_hashable(key)
            for k, x in enumerate(d.ents):
                if x.present is False and self.eq(x.key, key) is True:
                    del d.ents[k]
                    break
            else:
                # a tombstone whose key was decided equal on this path
                for k, x in enumerate(d.ents):
                    if x.present is False and self.p.must(self.eq(x.key, key)):
                        del d.ents[k]
                        break
            d.ents.append(Ent(key, value))

    def dict_del(self, d, key):
        e = self.dict_find(d, key)
        if e is None:
            self.raise_(KeyError, key)
        if d.openf is not None:
            e.present = False
        else:
            d.ents = [x for x in d.ents if x is not e]
        return e.value

    def dict_ents(self, d):
        """Entries in order, presence decided."""
        if d.openf is not None:
            raise Unsupported("iteration over an open dict")
        out = []
        for e in list(d.ents):
            if e.present is False: continue
            if e.present is not True:
                if not self.decide(e.present):
                    e.present = False
                    continue
                e.present = True
            out.append(e)
        return out

    # ------------------------------------------------------------ lengths / iteration
    def len_term(self, v, boolean=False):
        v = self.force(v)
        if isinstance(v, HList):
            n, t = 0, None
            for x in v.items:
                if isinstance(x, SymSeg): t = x.length if t is None else t + x.length
                else: n += 1
            if t is None: return (n > 0) if boolean else n
            if boolean: return True if n else t > 0
            return t + n if n else t
        if isinstance(v, HSet): return len(v.items)
        if isinstance(v, HDict):
            if v.openf is None: return len(self.dict_ents(v))
            raise Unsupported("len of an open dict")
        if isinstance(v, SText): return z3.Length(v.t)
        if isinstance(v, SFmt):
            from . import rx
            return rx.fmt_len(self, v)
        if isinstance(v, HInst):
            m = self.class_attr(v.cls, '__len__')
            if m is not MISSING:
                return self.call(self.bind(v, m, v.cls), [], {})
        if isinstance(v, (SInt, SReal, SBool, SDT, STD)) or v is None or isinstance(v, HInst):
            self.raise_(TypeError, f"object of type '{self.pytype(v).__name__}' has no len()")
        if is_sym(v): raise Unsupported(f"len of {v!r}")
        try: return len(v)
        except Exception as e: raise native_exc(e)

    def iterate(self, v):
        """Python generator over the elements; symbolic segments are yielded as SymSeg."""
        v = self.force(v)
        if isinstance(v, HList):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, HDict):
            yield from self.iter_dict(v, lambda e: e.key)
            return
        if isinstance(v, HSet):
            for x in list(v.items): yield x
            return
        if isinstance(v, GenVal):
            yield from v.it
            return
        if isinstance(v, HInst):
            m = self.class_attr(v.cls, '__iter__')
            if m is not MISSING and interpretable(m, self.roots):
                yield from self.iterate(self.call(self.bind(v, m, v.cls), [], {}))
                return
        if v is None or isinstance(v, (Sym, HInst, FuncVal, BMethod, CoroVal, NativeFn)):
            if isinstance(v, (SAtom, SText, SFmt)): raise Unsupported("iteration over a symbolic string")
            self.raise_(TypeError, f"'{self.pytype(v).__name__}' object is not iterable")
        try: it = iter(v)
        except TypeError as e: raise native_exc(e)
        while True:
            try: x = next(it)
            except StopIteration: return
            except Exception as e: raise native_exc(e)
            yield self.lift(x)

    def iter_dict(self, d, f):
        ents = self.dict_ents(d)
        n = len(ents)
        for e in ents:
            live = [x for x in d.ents if x.present is not False]
            if len(live) != n:
                self.raise_(RuntimeError, "dictionary changed size during iteration")
            yield f(e)
        if n and len([x for x in d.ents if x.present is not False]) != n:
            self.raise_(RuntimeError, "dictionary changed size during iteration")

    def listify(self, v):
        out = []
        for x in self.iterate(v):
            out.append(x)
        return out

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        ovs = self.w.overrides
        for c in cls.__mro__:
            if ovs and (id(c), name) in ovs: return ovs[id(c), name]
            if name in c.__dict__:
                if c is object and name in ('__eq__', '__init__', '__bool__', '__len__', '__iter__'):
                    return MISSING
                return c.__dict__[name]
        return MISSING

    def defining(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__: return c
        return cls

    def bind(self, obj, attr, cls):
        if isinstance(attr, types.FunctionType):
            return BMethod(obj, attr)
        if isinstance(attr, staticmethod): return attr.__func__
        if isinstance(attr, classmethod): return BMethod(cls, attr.__func__)
        if isinstance(attr, property):
            return self.call(BMethod(obj, attr.fget), [], {})
        return attr

    def getattr(self, obj, name, default=MISSING):
        obj = self.force(obj)
        v = self._getattr(obj, name)
        if v is MISSING:
            if default is not MISSING: return default
            self.raise_(AttributeError, f"'{self.pytype(obj).__name__}' object has no attribute '{name}'")
        return v

    def _getattr(self, obj, name):
        if isinstance(obj, self.intr.Super):
            try: return obj.verif_get(name)
            except AttributeError: return MISSING
        if isinstance(obj, HInst):
            if name in obj.fields: return obj.fields[name]
            if name == '__class__': return obj.cls
            if name == '__dict__':
                return HDict(self.p, [Ent(k, v) for k, v in obj.fields.items()])
            a = self.class_attr(obj.cls, name)
            if a is not MISSING:
                if issubclass(obj.cls, BaseException) and not isinstance(a, (types.FunctionType, property)) \
                        and type(a).__name__ in ('method_descriptor', 'getset_descriptor', 'wrapper_descriptor'):
                    if name == '__traceback__': return None
                    if name == 'with_traceback': return NativeFn(lambda it, a, k: obj)
                    return MISSING
                if isinstance(a, (types.MemberDescriptorType,)):
                    return MISSING
                return self.bind(obj, a, obj.cls)
            if getattr(obj.cls, 'verif_standin', False) and not name.startswith('__'):
                raise Unsupported(f"{obj.cls.__name__}.{name} (a stand-in)")
            g = self.class_attr(obj.cls, '__getattr__')
            if g is not MISSING and interpretable(g, self.roots):
                return self.call(BMethod(obj, g), [name], {})
            return MISSING
        if name == '__class__': return self.pytype(obj)
        if isinstance(obj, (Sym, HList, HDict, HSet, GenVal, CoroVal)) or \
                isinstance(obj, (str, bytes)) and not isinstance(obj, type):
            m = self.intr.value_attr(self, obj, name)
            return m
        if isinstance(obj, (datetime, timedelta)):
            m = self.intr.value_attr(self, obj, name)
            if m is not MISSING: return m
        if isinstance(obj, FuncVal):
            if name in obj.attrs: return obj.attrs[name]
            if name == '__name__': return obj.name
            if name == '__qualname__': return obj.qualname
            if name == '__message_type__' and obj.real is not None:
                return getattr(obj.real, name, MISSING)
            return MISSING
        if isinstance(obj, BMethod):
            if name == '__self__': return obj.self_
            if name == '__func__': return obj.func
            if isinstance(obj.func, FuncVal): return self._getattr(obj.func, name)
            return getattr(obj.func, name, MISSING)
        if isinstance(obj, NativeFn):
            return obj.name if name == '__name__' else MISSING
        ov = self.w.attr_override(obj, name)
        if ov is not MISSING: return ov
        if isinstance(obj, dict) and not isinstance(obj, type):
            pass
        try:
            v = getattr(obj, name)
        except AttributeError:
            return MISSING
        except Exception as e:
            raise native_exc(e)
        return v

    def setattr(self, obj, name, value):
        obj = self.force(obj)
        if isinstance(obj, HInst):
            a = self.class_attr(obj.cls, name)
            if isinstance(a, property):
                if a.fset is None: self.raise_(AttributeError, "can't set attribute")
                self.call(BMethod(obj, a.fset), [value], {})
                return
            obj.fields[name] = value
            return
        if isinstance(obj, FuncVal):
            obj.attrs[name] = value
            return
        if isinstance(obj, (Sym, HObj)) or obj is None or isinstance(obj, (str, int, tuple, list, dict)):
            self.raise_(AttributeError, f"'{self.pytype(obj).__name__}' object has no attribute '{name}'")
        if isinstance(obj, type) and obj.__module__.split('.')[0] == 'openleadr':
            self.w.set_class_attr(obj, name, value)
            return
        raise Unsupported(f"attribute assignment on {obj!r}")

    # ------------------------------------------------------------ subscripts
    def index_concrete(self, seq, i):
        try: return seq[i]
        except IndexError: self.raise_(IndexError, "list index out of range")

    def getitem(self, obj, key):
        obj = self.force(obj)
        if isinstance(obj, HDict): return self.dict_get(obj, key)
        if isinstance(key, slice):
            return self.slice_(obj, key)
        key = self.force(key)
        if isinstance(obj, HList):
            if not obj.concrete:
                return self.w.seq_index(self, obj, key)
            return self.pick(obj.items, key, 'list')
        if isinstance(obj, tuple):
            return self.pick(obj, key, 'tuple')
        if isinstance(obj, dict):
            if fully_concrete(key):
                try: return self.lift(obj[key])
                except Exception as e: raise native_exc(e)
            for k, v in obj.items():
                q = self.eq(k, key)
                if q is not False and self.decide(q): return self.lift(v)
            self.raise_(KeyError, key)
        if isinstance(obj, list):
            return self.lift(self.pick(obj, key, 'list'))
        if isinstance(obj, (SAtom, SText, SFmt)) or isinstance(obj, str) and is_sym(key):
            return self.intr.str_index(self, obj, key)
        if isinstance(obj, HInst):
            m = self.class_attr(obj.cls, '__getitem__')
            if m is not MISSING: return self.call(self.bind(obj, m, obj.cls), [key], {})
        if obj is None or is_sym(obj) or is_num(obj):
            if isinstance(obj, SOpq): raise Unsupported(f"subscript of opaque {obj!r}")
            self.raise_(TypeError, f"'{self.pytype(obj).__name__}' object is not subscriptable")
        if not fully_concrete(key): raise Unsupported(f"symbolic subscript of {obj!r}")
        try: return self.lift(obj[key])
        except Exception as e: raise native_exc(e)

    def pick(self, items, key, what):
        if isinstance(key, bool): key = int(key)
        if isinstance(key, int):
            try: return items[key]
            except IndexError: self.raise_(IndexError, f"{what} index out of range")
        if isinstance(key, SInt):
            n = len(items)
            for i in range(n):
                if self.decide(z3.Or(key.t == i, key.t == i - n)): return items[i]
            self.raise_(IndexError, f"{what} index out of range")
        self.raise_(TypeError, f"{what} indices must be integers or slices, not {self.pytype(key).__name__}")

    def conc_int(self, v, lo=None, hi=None, what='int'):
        """Concretise a small symbolic int by forking over a range."""
        v = self.force(v)
        if v is None or isinstance(v, int): return v
        if isinstance(v, SInt):
            for i in range(lo, hi + 1):
                if self.decide(v.t == i): return i
            if self.decide(v.t < lo): return lo - 1
            return hi + 1
        self.raise_(TypeError, "slice indices must be integers or None or have an __index__ method")

    def slice_(self, obj, sl):
        lo, hi, st = self.force(sl.start), self.force(sl.stop), self.force(sl.step)
        if isinstance(obj, HList):
            if not obj.concrete:
                return self.w.seq_slice(self, obj, lo, hi, st)
            n = len(obj.items)
            lo, hi = self.conc_int(lo, -n, n), self.conc_int(hi, -n, n)
            return HList(self.p, obj.items[lo:hi:self.conc_int(st, -n, n)])
        if isinstance(obj, tuple):
            n = len(obj)
            return obj[self.conc_int(lo, -n, n):self.conc_int(hi, -n, n):self.conc_int(st, -n, n)]
        if isinstance(obj, (SAtom, SText, SFmt)):
            return self.intr.str_slice(self, obj, lo, hi, st)
        if isinstance(obj, (str, bytes, list)) and all(fully_concrete(x) for x in (lo, hi, st)):
            try: return self.lift(obj[lo:hi:st])
            except Exception as e: raise native_exc(e)
        if obj is None or is_num(obj) or isinstance(obj, (HInst,)):
            self.raise_(TypeError, f"'{self.pytype(obj).__name__}' object is not subscriptable")
        raise Unsupported(f"slice of {obj!r}")

    def setitem(self, obj, key, value):
        obj = self.force(obj)
        if isinstance(obj, HDict):
            self.dict_set(obj, key, value)
            return
        key = self.force(key) if not isinstance(key, slice) else key
        if isinstance(obj, HList):
            if not obj.concrete:
                self.w.seq_setitem(self, obj, key, value)
                return
            if isinstance(key, slice):
                lo, hi, st = self.force(key.start), self.force(key.stop), self.force(key.step)
                if not all(x is None or isinstance(x, int) for x in (lo, hi, st)): raise Unsupported("slice assign")
                obj.items[lo:hi:st] = self.listify(value)
                return
            if isinstance(key, SInt): key = self.conc_int(key, -len(obj.items), len(obj.items))
            try: obj.items[key] = value
            except (IndexError, TypeError) as e: raise native_exc(e)
            return
        if isinstance(obj, HInst):
            m = self.class_attr(obj.cls, '__setitem__')
            if m is not MISSING:
                self.call(self.bind(obj, m, obj.cls), [key, value], {})
                return
        if obj is None or isinstance(obj, (tuple, str, SAtom, SText, SFmt, HInst)) or is_num(obj):
            self.raise_(TypeError, f"'{self.pytype(obj).__name__}' object does not support item assignment")
        raise Unsupported(f"item assignment on {obj!r}")

    def delitem(self, obj, key):
        obj = self.force(obj)
        if isinstance(obj, HDict):
            self.dict_del(obj, key)
            return
        if isinstance(obj, HList) and obj.concrete:
            if isinstance(key, slice):
                lo, hi, st = self.force(key.start), self.force(key.stop), self.force(key.step)
                if not all(x is None or isinstance(x, int) for x in (lo, hi, st)): raise Unsupported("slice del")
                del obj.items[lo:hi:st]
                return
            key = self.conc_int(key, -len(obj.items), len(obj.items))
            try: del obj.items[key]
            except IndexError as e: raise native_exc(e)
            return
        raise Unsupported(f"del on {obj!r}")

    # ------------------------------------------------------------ binary operators
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if not is_sym(a) and not is_sym(b) and fully_concrete(a) and fully_concrete(b):
            if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
                a, b = self.lift(a), self.lift(b)
            else:
                try: return self.OPS[op](a, b)
                except Exception as e: raise native_exc(e)
        na, nb = self.num(a), self.num(b)
        if na and nb:
            return self.arith(op, a, b, na, nb)
        ta, tb = self.pytype(a), self.pytype(b)
        if op == 'Add':
            if is_strlike(a) and is_strlike(b):
                if isinstance(a, SText) or isinstance(b, SText):
                    r = self.intr.text_concat(self, a, b)
                    if r is not None: return r
                return self.mk_fmt([a, b])
            if isinstance(a, HList) and isinstance(b, (HList, list)):
                return HList(self.p, a.items + (b.items if isinstance(b, HList) else self.lift(b).items))
            if isinstance(b, HList) and isinstance(a, list):
                return HList(self.p, self.lift(a).items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if ta is datetime and tb is timedelta: return self.mk_dt(dt_us(a) + td_us(b), dt_aware(a))
            if ta is timedelta and tb is datetime: return self.mk_dt(dt_us(b) + td_us(a), dt_aware(b))
            if ta is timedelta and tb is timedelta: return self.mk_td(td_us(a) + td_us(b))
        elif op == 'Sub':
            if ta is datetime and tb is timedelta: return self.mk_dt(dt_us(a) - td_us(b), dt_aware(a))
            if ta is datetime and tb is datetime:
                if dt_aware(a) != dt_aware(b):
                    self.raise_(TypeError, "can't subtract offset-naive and offset-aware datetimes")
                return self.mk_td(dt_us(a) - dt_us(b))
            if ta is timedelta and tb is timedelta: return self.mk_td(td_us(a) - td_us(b))
            if isinstance(a, HSet) and isinstance(b, HSet):
                return HSet(self.p, [x for x in a.items
                                     if not self.decide(self.disj([self.eq(x, y) for y in b.items]))])
        elif op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (STD, timedelta)) and isinstance(y, (int, SInt)):
                    return self.mk_td(td_us(x) * (y.t if isinstance(y, SInt) else y))
                if isinstance(x, (STD, timedelta)) and isinstance(y, (float, SReal)):
                    raise Unsupported("timedelta * float")
                if isinstance(x, HList) and isinstance(y, int):
                    return HList(self.p, x.items * y)
                if isinstance(x, tuple) and isinstance(y, int): return x * y
                if isinstance(x, str) and isinstance(y, SInt):
                    return self.intr.str_repeat(self, x, y)
        elif op in ('Div', 'FloorDiv', 'Mod'):
            if ta is timedelta and tb is timedelta:
                x, y = td_us(a), td_us(b)
                if self.decide(self._b(y == 0)): self.raise_(ZeroDivisionError, "division by zero")
                if op == 'Div': return self.mk_real(self.to_real(x) / self.to_real(y))
                r = self.arith('FloorDiv' if op == 'FloorDiv' else 'Mod', SInt(x) if not isinstance(x, int) else x,
                               SInt(y) if not isinstance(y, int) else y, ('i', x), ('i', y))
                return r if op == 'FloorDiv' else self.mk_td(r.t if isinstance(r, SInt) else r)
            if ta is timedelta and tb is int and op in ('FloorDiv',):
                r = self.arith('FloorDiv', a, b, ('i', td_us(a)), nb)
                return self.mk_td(r.t if isinstance(r, SInt) else r)
            if op == 'Mod' and isinstance(a, str):
                return self.mk_fmt([a, '%', b])
        elif op == 'BitOr':
            if isinstance(a, (HDict, dict)) and isinstance(b, (HDict, dict)):
                d = HDict(self.p, [e.copy() for e in self.dict_ents(self.lift(a))])
                for e in self.dict_ents(self.lift(b)): self.dict_set(d, e.key, e.value)
                return d
            if isinstance(a, HSet) and isinstance(b, HSet):
                return self.intr.mk_set(self, a.items + b.items)
        for x in (a, b):
            if isinstance(x, HInst):
                raise Unsupported("operator overloading")
        if isinstance(a, SOpq) or isinstance(b, SOpq): raise Unsupported("operator on an opaque value")
        self.raise_(TypeError, f"unsupported operand type(s) for {op}: '{ta.__name__}' and '{tb.__name__}'")

    OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
           'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow,
           'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor,
           'LShift': operator.lshift, 'RShift': operator.rshift, 'MatMult': operator.matmul}

    def arith(self, op, a, b, na, nb):
        ka, x = na
        kb, y = nb
        if 'inf' in (ka, kb): raise Unsupported("arithmetic with infinity")
        isint = ka == 'i' and kb == 'i'
        if op in ('Add', 'Sub', 'Mult'):
            f = self.OPS[op]
            if isint: return self.mk_int(f(x, y))
            return self.mk_real(f(self.to_real(x), self.to_real(y)))
        if op in ('Div', 'FloorDiv', 'Mod'):
            z = self._b(y == 0)
            if self.decide(z): self.raise_(ZeroDivisionError, "division by zero")
            if op == 'Div': return self.mk_real(self.to_real(x) / self.to_real(y))
            if isint:
                if isinstance(x, int): x = z3.IntVal(x)
                if isinstance(y, int): y = z3.IntVal(y)
                q = z3.If(y > 0, x / y, (-x) / (-y))
                if op == 'FloorDiv': return self.mk_int(q)
                return self.mk_int(x - y * q)
            xr, yr = self.to_real(x), self.to_real(y)
            q = z3.ToInt(xr / yr)
            if op == 'FloorDiv': return self.mk_real(z3.ToReal(q))
            return self.mk_real(xr - yr * z3.ToReal(q))
        if op == 'Pow' and isinstance(y, int) and 0 <= y <= 3:
            r = 1
            for _ in range(y): r = self.binop('Mult', r, a)
            return r
        raise Unsupported(f"operator {op} on symbolic numbers")

    def mk_fmt(self, parts):
        f = SFmt(parts)
        n = self.fmt_norm(f)
        if not n: return ''
        if len(n) == 1 and isinstance(n[0], (str, SAtom, SText)): return n[0]
        return SFmt(n)

    def to_str_part(self, v):
        v = self.force(v)
        if isinstance(v, (str, SAtom, SText, SFmt, SInt)): return v
        if isinstance(v, SBool): return 'True' if self.decide(v.t) else 'False'
        if isinstance(v, HInst) and issubclass(v.cls, BaseException):
            m = self.class_attr(v.cls, '__str__')
            if m is not MISSING and interpretable(m, self.roots):
                return self.call(self.bind(v, m, v.cls), [], {})
            args = v.fields.get('args', ())
            if len(args) == 1 and not issubclass(v.cls, KeyError): return self.to_str_part(args[0])
            if not args: return ''
            return SFmt([v])
        if isinstance(v, HInst):
            for nm in ('__str__', '__repr__'):
                m = self.class_attr(v.cls, nm)
                if m is not MISSING and interpretable(m, self.roots):
                    return self.call(self.bind(v, m, v.cls), [], {})
        if is_sym(v): return SFmt([v])
        if not fully_concrete(v): return SFmt([('native', repr(type(v)))])
        try: return str(v)
        except Exception as e: raise native_exc(e)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.force(f)
        self.steps += 1
        if type(f) is types.FunctionType: f = getattr(f, 'verif_inner', f)
        if self.steps > self.MAX_STEPS: raise Budget("step budget exhausted")
        if isinstance(f, BMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs) if not isinstance(f.func, types.FunctionType) \
                else self.call_real(f.func, [f.self_] + list(args), kwargs, bound=f.self_)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, NativeFn):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, HInst):
            m = self.class_attr(f.cls, '__call__')
            if m is not MISSING: return self.call(self.bind(f, m, f.cls), args, kwargs)
            self.raise_(TypeError, f"'{f.cls.__name__}' object is not callable")
        if isinstance(f, SOpq) and f.kind == 'callable':
            return self.w.call_opaque(self, f, args, kwargs)
        if f is None or isinstance(f, (Sym, HObj)) or isinstance(f, (int, str, float, tuple, dict, list)):
            self.raise_(TypeError, f"'{self.pytype(f).__name__}' object is not callable")
        return self.call_real(f, args, kwargs)

    def real_func(self, fn, cls=None):
        node = ast_of(fn)
        env = None
        if fn.__closure__:
            env = Env(fn.__globals__)
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try: env.vars[n] = c.cell_contents
                except ValueError: pass
        kwd = fn.__kwdefaults__ or {}
        fv = FuncVal(node, fn.__globals__, env, fn.__name__, cls=cls, defaults=fn.__defaults__ or (),
                     kwdefaults=kwd, qualname=f"{fn.__module__}.{fn.__qualname__}", real=fn)
        return fv

    def call_real(self, f, args, kwargs, bound=None):
        if type(f) is types.FunctionType: f = getattr(f, 'verif_inner', f)
        stub = self.w.stub_for(f)
        if stub is not None:
            return stub(self, list(args), dict(kwargs))
        h = self.intr.lookup(f)
        if h is not None:
            return h(self, list(args), dict(kwargs))
        if isinstance(f, types.FunctionType) and interpretable(f, self.roots):
            cls = None
            if bound is not None:
                t = bound.cls if isinstance(bound, HInst) else bound if isinstance(bound, type) else None
                if t is not None:
                    for c in t.__mro__:
                        a = c.__dict__.get(f.__name__)
                        a = getattr(a, '__func__', a)
                        if a is f: cls = c; break
            return self.call_func(self.real_func(f, cls), args, kwargs)
        if isinstance(f, types.MethodType):
            if self.w.is_world(f.__self__):
                try:
                    return f(*args, **kwargs)
                except (RecursionError,):
                    raise Unsupported("recursion")
            return self.call_real(f.__func__, [f.__self__] + list(args), kwargs, bound=f.__self__)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and f.__self__ is not None and not isinstance(f.__self__, types.ModuleType):
            return self.intr.builtin_method(self, f, list(args), dict(kwargs))
        if all(fully_concrete(a) for a in args) and all(fully_concrete(v) for v in kwargs.values()) \
                and self.intr.native_ok(f):
            try: return f(*args, **kwargs)
            except Exception as e: raise native_exc(e)
        raise Unsupported(f"call of {f!r}")

    def unlift(self, v):
        if isinstance(v, HDict): return {e.key: self.unlift(e.value) for e in self.dict_ents(v)}
        if isinstance(v, HList): return [self.unlift(x) for x in v.items]
        return v

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, self.w.Schema):
            return cls(*[self.unlift(a) for a in args], **{k: self.unlift(v) for k, v in kwargs.items()})
        if issubclass(cls, BaseException):
            init = self.class_attr(cls, '__init__')
            inst = HInst(self.p, cls, {'args': tuple(args)})
            if isinstance(init, types.FunctionType) and interpretable(init, self.roots):
                self.touched.add(f"{init.__module__}.{init.__qualname__}")
                self.call_func(self.real_func(init, self.defining(cls, '__init__')), [inst] + list(args), kwargs)
            return inst
        repo = any(getattr(__import__('sys').modules.get(cls.__module__), '__file__', '') and
                   (__import__('sys').modules[cls.__module__].__file__ or '').startswith(r) for r in self.roots)
        if dataclasses.is_dataclass(cls) and repo:
            init = cls.__dict__.get('__init__')
            if not interpretable(init, self.roots):
                return self.dataclass_init(cls, args, kwargs)
        if repo:
            inst = HInst(self.p, cls, {})
            init = self.class_attr(cls, '__init__')
            if init is MISSING:
                if args or kwargs: self.raise_(TypeError, f"{cls.__name__}() takes no arguments")
                return inst
            self.call_func(self.real_func(init, self.defining(cls, '__init__')), [inst] + list(args), kwargs)
            return inst
        h = self.intr.lookup(cls)
        if h is not None: return h(self, list(args), dict(kwargs))
        if all(fully_concrete(a) for a in args) and all(fully_concrete(v) for v in kwargs.values()) \
                and self.intr.native_ok(cls):
            try: return cls(*args, **kwargs)
            except Exception as e: raise native_exc(e)
        raise Unsupported(f"instantiation of {cls!r}")

    def dataclass_init(self, cls, args, kwargs):
        flds = [f for f in dataclasses.fields(cls) if f.init]
        kwargs = dict(kwargs)
        inst = HInst(self.p, cls, {})
        if len(args) > len(flds):
            self.raise_(TypeError, f"{cls.__name__}.__init__() takes too many positional arguments")
        vals = {}
        for f, a in zip(flds, args): vals[f.name] = a
        for k, v in kwargs.items():
            if k in vals: self.raise_(TypeError, f"multiple values for argument '{k}'")
            if k not in [f.name for f in flds]:
                self.raise_(TypeError, f"{cls.__name__}.__init__() got an unexpected keyword argument '{k}'")
            vals[k] = v
        for f in flds:
            if f.name not in vals:
                if f.default is not dataclasses.MISSING: vals[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    vals[f.name] = self.call(f.default_factory, [], {})
                else:
                    self.raise_(TypeError, f"{cls.__name__}.__init__() missing required argument: '{f.name}'")
            inst.fields[f.name] = vals[f.name]
        pi = self.class_attr(cls, '__post_init__')
        if pi is not MISSING:
            self.call(self.bind(inst, pi, cls), [], {})
        return inst

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        n = len(pos)
        for name, v in zip(pos, args): out[name] = v
        if len(args) > n:
            if a.vararg is None:
                self.raise_(TypeError, f"{f.name}() takes {n} positional arguments but {len(args)} were given")
            out[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        kwo = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = []
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwo:
                if k in out: self.raise_(TypeError, f"{f.name}() got multiple values for argument '{k}'")
                out[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                self.raise_(TypeError, f"{f.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            out[a.kwarg.arg] = HDict(self.p, [Ent(k, v) for k, v in extra])
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in out:
                j = i - (n - nd)
                if j >= 0: out[name] = f.defaults[j]
                else: self.raise_(TypeError, f"{f.name}() missing a required positional argument: '{name}'")
        for name in kwo:
            if name not in out:
                if name in f.kwdefaults: out[name] = f.kwdefaults[name]
                else: self.raise_(TypeError, f"{f.name}() missing a required keyword-only argument: '{name}'")
        return out

    def call_func(self, f, args, kwargs):
        if f.real is not None:
            stub = self.w.stub_for(f.real)
            if stub is not None:
                return stub(self, list(args), dict(kwargs))
            self.touched.add(f.qualname)
        if f.real is not None and getattr(f.real, 'verif_standin', False):
            try: bound = self.bind_args(f, args, kwargs)
            except PyExc: raise Unsupported(f"call of {f.qualname} (a stand-in)")
        else: bound = self.bind_args(f, args, kwargs)
        if isinstance(f.node, ast.AsyncFunctionDef):
            return CoroVal(lambda: self.run_func(f, bound), f.name)
        return self.run_func(f, bound)

    def run_func(self, f, bound):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion too deep")
        try:
            loc, outer = assigned_names(f.node)
            env = Env(f.globs, f.env, loc | frozenset(bound), outer, cls=f.cls)
            env.vars.update(bound)
            if f.node.args.args or f.node.args.posonlyargs:
                env.selfv = bound[(f.node.args.posonlyargs + f.node.args.args)[0].arg]
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if is_generator(f.node): raise Unsupported("generator function")
            try:
                self.block(f.node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def await_(self, v):
        v = self.force(v)
        if isinstance(v, CoroVal):
            if v.started: self.raise_(RuntimeError, "cannot reuse already awaited coroutine")
            v.started = True
            return v.thunk()
        if isinstance(v, HInst):
            m = self.class_attr(v.cls, '__await__')
            m2 = self.class_attr(v.cls, 'verif_await')
            if m2 is not MISSING: return self.call(self.bind(v, m2, v.cls), [], {})
            if m is not MISSING: raise Unsupported("custom awaitable")
        if isinstance(v, SOpq): raise Unsupported("await of an opaque value")
        self.raise_(TypeError, f"object {self.pytype(v).__name__} can't be used in 'await' expression")

    # ------------------------------------------------------------ names
    def load(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars: return e.vars[name]
            if name in e.locals and name not in e.outer:
                if first:
                    self.raise_(UnboundLocalError, f"cannot access local variable '{name}' where it is not "
                                                   "associated with a value")
                self.raise_(NameError, f"cannot access free variable '{name}'")
            if not e.comp: first = False
            e = e.parent
        ov = self.w.global_override(env.globs, name)
        if ov is not MISSING: return ov
        if name in env.globs: return env.globs[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        self.raise_(NameError, f"name '{name}' is not defined")

    def store(self, name, v, env):
        e = env
        if e.comp and name not in e.locals:
            while e.comp: e = e.parent
        if name in e.outer:
            p = e.parent
            while p is not None:
                if name in p.vars or name in p.locals:
                    p.vars[name] = v
                    return
                p = p.parent
            raise Unsupported("assignment to a global")
        e.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev_slice(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.listify(v)
            if any(isinstance(x, SymSeg) for x in vals): raise Unsupported("unpacking a symbolic list")
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if star:
                s = star[0]
                if len(vals) < n - 1:
                    self.raise_(ValueError, "not enough values to unpack")
                after = n - 1 - s
                for e, x in zip(t.elts[:s], vals[:s]): self.assign(e, x, env)
                self.assign(t.elts[s].value, HList(self.p, vals[s:len(vals) - after]), env)
                for e, x in zip(t.elts[s + 1:], vals[len(vals) - after:]): self.assign(e, x, env)
                return
            if len(vals) < n: self.raise_(ValueError, f"not enough values to unpack (expected {n}, got {len(vals)})")
            if len(vals) > n: self.raise_(ValueError, f"too many values to unpack (expected {n})")
            for e, x in zip(t.elts, vals): self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.ex(s, env)

    def ex(self, s, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS: raise Budget("step budget exhausted")
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__}")
        return m(s, env)

    def ex_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, env)

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)

    def ex_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            self.store(t.id, self.inplace(op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(s.value, env)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        cur = self.force(cur)
        if op == 'Add' and isinstance(cur, HList):
            cur.items.extend(self.listify(v))
            return cur
        if op == 'BitOr' and isinstance(cur, HDict):
            for e in self.dict_ents(self.lift(self.force(v))): self.dict_set(cur, e.key, e.value)
            return cur
        return self.binop(op, cur, v)

    def ex_Pass(self, s, env): pass
    def ex_Break(self, s, env): raise BreakEx()
    def ex_Continue(self, s, env): raise ContinueEx()
    def ex_Return(self, s, env): raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def ex_If(self, s, env):
        t = self.truth_term(self.ev(s.test, env))
        if not isinstance(t, bool) and mergeable(s):
            ok, _ = self.try_merge(s, t, env, lambda: self.block(s.body, env), lambda: self.block(s.orelse, env))
            if ok: return
        self.block(s.body if self.decide(t) else s.orelse, env)

    # Join of the two branches of a conditional: both are executed without forking and their effects
    # are combined with if-then-else; anything that cannot be combined falls back to forking.
    MERGE = True

    def try_merge(self, node, t, env, fa, fb):
        p = self.p
        if not self.MERGE: return False, None
        t = z3.simplify(t)
        if z3.is_true(t) or z3.is_false(t): return False, None
        fr = p.frames[-1]
        if not p.nofork:
            key = (id(node), tuple(fr.taken), len(p.frames), self.merge_no)
            self.merge_no += 1
            if key in self.w.merge_failed: return False, None
        else:
            key = None
        w = self.w
        if p.check(t) == z3.unsat or p.check(z3.Not(t)) == z3.unsat: return False, None
        heap0 = len(p.heap)
        s0 = p.snapshot()
        envs = []
        e = env
        while e is not None:
            envs.append((e, dict(e.vars)))
            e = e.parent
        wst = w.merge_state()
        names0 = dict(p.names)

        def back():
            for o, sn in s0[1]: o.restore(sn)
            for e, v in envs: e.vars = dict(v)

        def run(c, f):
            p.solver.push()
            n = len(p.pc)
            es = list(self.exc_stack)
            d = self.depth
            p.nofork += 1
            try:
                p.pc.append(c)
                p.solver.add(c)
                v = f()
            finally:
                p.nofork -= 1
                self.depth = d
                self.exc_stack[:] = es
                p.solver.pop()
                facts = p.pc[n + 1:]
                del p.pc[n:]
            if w.merge_state() != wst: raise MergeFail()
            return v, facts, [o.snap() for o, _ in s0[1]], [dict(e.vars) for e, _ in envs]
        try:
            va, fa_, ha, ea = run(t, fa)
            back()
            vb, fb_, hb, eb = run(z3.Not(t), fb)
            back()
            # combine (raises MergeFail before anything is changed)
            newh = []
            for (o, sn), x, y in zip(s0[1], ha, hb):
                if self.snap_same(sn, x) and self.snap_same(sn, y): continue
                newh.append((o, self.merge_snap(o, t, x, y)))
            newe = []
            for (e, sn), x, y in zip(envs, ea, eb):
                if self.snap_same(sn, x) and self.snap_same(sn, y): continue
                newe.append((e, self.merge_vars(t, x, y)))
            v = None if va is vb else self.merge_val(t, va, vb)
        except (MergeFail, PyExc, ReturnEx, BreakEx, ContinueEx, Unsupported, Infeasible) as ex:
            if isinstance(ex, Budget): raise
            back()
            del p.heap[heap0:]
            p.names = names0
            w.merge_restore(wst)
            if p.nofork: raise MergeFail()
            w.merge_failed.add(key)
            return False, None
        for o, sn in newh: o.restore(sn)
        for e, vs in newe: e.vars = vs
        for f in fa_: p.add(z3.Implies(t, f))
        for f in fb_: p.add(z3.Implies(z3.Not(t), f))
        return True, (va if va is vb else v)

    @staticmethod
    def snap_same(a, b):
        if isinstance(a, dict):
            return len(a) == len(b) and all(k in b and b[k] is v for k, v in a.items())
        if isinstance(a, list):
            return len(a) == len(b) and all(x is y for x, y in zip(a, b))
        return a[1] is b[1] and len(a[0]) == len(b[0]) and \
            all(x.key is y.key and x.value is y.value and x.present is y.present for x, y in zip(a[0], b[0]))

    def merge_val(self, t, a, b):
        if a is b: return a
        if not isinstance(a, (SUnion, Sym, HObj)) and not isinstance(b, (SUnion, Sym, HObj)):
            if type(a) is type(b) and isinstance(a, (str, int, float, bool)) and a == b: return a
        if isinstance(a, HList) and isinstance(b, HList) and not a.items and not b.items and False: return a
        if not isinstance(a, SUnion) and not isinstance(b, SUnion):
            m = self.intr.merge(self, t, a, b)
            if m is not None: return m
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return tuple(self.merge_val(t, x, y) for x, y in zip(a, b))
        for x in (a, b):
            if isinstance(x, (GenVal, CoroVal, SymSeg)): raise MergeFail()
        return SUnion([(t, a), (None, b)])

    def merge_vars(self, t, x, y):
        if x.keys() != y.keys(): raise MergeFail()
        return {k: self.merge_val(t, x[k], y[k]) for k in x}

    def merge_snap(self, o, t, x, y):
        if isinstance(o, HInst): return self.merge_vars(t, x, y)
        if isinstance(o, HList):
            if len(x) != len(y): raise MergeFail()
            return [self.merge_val(t, a, b) for a, b in zip(x, y)]
        if isinstance(o, HSet):
            if not self.snap_same(x, y): raise MergeFail()
            return x
        # dict: common prefix of keys, then the entries only one branch added
        if x[1] is not y[1]: raise MergeFail()
        ex, ey = x[0], y[0]
        out = []

        def cond(c, pr): return c if pr is True else z3.And(c, pr) if pr is not False else False

        def both(p1, p2):
            if p1 is p2: return p1
            z = [z3.BoolVal(q) if isinstance(q, bool) else q for q in (p1, p2)]
            return z3.If(t, z[0], z[1])
        i = 0
        while i < len(ex) and i < len(ey):
            a, b = ex[i], ey[i]
            if not (a.key is b.key or isinstance(a.key, str) and isinstance(b.key, str) and a.key == b.key): break
            va, vb = a.value, b.value
            if a.present is False: va = vb
            elif b.present is False: vb = va
            out.append(Ent(a.key, self.merge_val(t, va, vb), both(a.present, b.present)))
            i += 1
        if i < len(ex) and i < len(ey):
            # different keys added: only if they can be told apart
            for a in ex[i:]:
                for b in ey[i:]:
                    if not (isinstance(a.key, str) and isinstance(b.key, str) and a.key != b.key): raise MergeFail()
        for a in ex[i:]: out.append(Ent(a.key, a.value, cond(t, a.present)))
        for b in ey[i:]: out.append(Ent(b.key, b.value, cond(z3.Not(t), b.present)))
        return (out, x[1])

    def ex_While(self, s, env):
        n = 0
        while True:
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env)
                return
            n += 1
            if n > self.w.max_unroll: raise Budget("while loop not bounded")
            try: self.block(s.body, env)
            except BreakEx: return
            except ContinueEx: continue

    def ex_For(self, s, env):
        it = self.force(self.ev(s.iter, env))
        for x in self.iterate(it):
            if isinstance(x, SymSeg):
                r = self.w.sym_for(self, s, env, x)
                if r == 'break': return
                continue
            self.assign(s.target, x, env)
            try: self.block(s.body, env)
            except BreakEx: return
            except ContinueEx: continue
        self.block(s.orelse, env)

    def ex_FunctionDef(self, s, env):
        fv = self.mk_func(s, env)
        v = fv
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.store(s.name, v, env)
    ex_AsyncFunctionDef = ex_FunctionDef

    def mk_func(self, node, env):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, 'name', '<lambda>')
        return FuncVal(node, env.globs, env, name, cls=env.cls, defaults=defaults, kwdefaults=kwd)

    def ex_Import(self, s, env):
        for a in s.names:
            try: m = __import__(a.name)
            except Exception as e: raise native_exc(e)
            if a.asname:
                import sys
                m = sys.modules[a.name]
            self.store((a.asname or a.name).split('.')[0], m, env)

    def ex_ImportFrom(self, s, env):
        import importlib
        if s.level:
            pkg = env.globs.get('__package__')
            mod = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        else:
            try: mod = importlib.import_module(s.module)
            except Exception as e: raise native_exc(e)
        for a in s.names:
            ov = self.w.attr_override(mod, a.name)
            if ov is not MISSING: v = ov
            else:
                try: v = getattr(mod, a.name)
                except AttributeError:
                    try: v = importlib.import_module(f"{mod.__name__}.{a.name}")
                    except Exception: raise native_exc(ImportError(f"cannot import name '{a.name}'"))
            self.store(a.asname or a.name, v, env)

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = env
                while e is not None and t.id not in e.vars: e = e.parent
                if e is None: self.raise_(NameError, t.id)
                del e.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev_slice(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value, env))
                if isinstance(o, HInst) and t.attr in o.fields: del o.fields[t.attr]
                else: self.raise_(AttributeError, t.attr)

    def ex_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_(AssertionError, *([self.ev(s.msg, env)] if s.msg else []))

    def ex_Global(self, s, env): pass
    def ex_Nonlocal(self, s, env): pass

    def ex_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack: self.raise_(RuntimeError, "No active exception to reraise")
            raise self.exc_stack[-1]
        v = self.force(self.ev(s.exc, env))
        if s.cause is not None: self.ev(s.cause, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.call(v, [], {})
        if isinstance(v, HInst) and issubclass(v.cls, BaseException):
            raise PyExc(v)
        if isinstance(v, BaseException): raise native_exc(v)
        self.raise_(TypeError, "exceptions must derive from BaseException")

    def ex_Try(self, s, env):
        def inner():
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is not None:
                        ty = self.force(self.ev(h.type, env))
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        if not any(isinstance(t, type) and issubclass(e.cls, t) for t in tys): continue
                    if h.name: self.store(h.name, e.value, env)
                    self.exc_stack.append(e)
                    try:
                        self.block(h.body, env)
                    finally:
                        self.exc_stack.pop()
                        if h.name: env_del(h.name)
                    return
                raise
            else:
                self.block(s.orelse, env)

        def env_del(n):
            env.vars.pop(n, None)
        if not s.finalbody:
            inner()
            return
        try:
            inner()
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def ex_With(self, s, env, is_async=False):
        self._with(s.items, s.body, env, is_async)

    def ex_AsyncWith(self, s, env):
        self._with(s.items, s.body, env, True)

    def _with(self, items, body, env, is_async):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.force(self.ev(it.context_expr, env))
        en, xn = ('__aenter__', '__aexit__') if is_async else ('__enter__', '__exit__')
        enter = self.getattr(cm, en)
        exit_ = self.getattr(cm, xn)
        v = self.call(enter, [], {})
        if is_async: v = self.await_(v)
        if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
        try:
            self._with(items[1:], body, env, is_async)
        except PyExc as e:
            r = self.call(exit_, [e.cls, e.value, None], {})
            if is_async: r = self.await_(r)
            if not self.truth(r): raise
            return
        except (ReturnEx, BreakEx, ContinueEx):
            r = self.call(exit_, [None, None, None], {})
            if is_async: self.await_(r)
            raise
        r = self.call(exit_, [None, None, None], {})
        if is_async: self.await_(r)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS: raise Budget("step budget exhausted")
        m = self._disp.get(type(n))
        if m is None:
            m = getattr(self, 'ev_' + type(n).__name__, None)
            if m is None: raise Unsupported(f"expression {type(n).__name__}")
            self._disp[type(n)] = m
        return m(n, env)

    def ev_Constant(self, n, env): return n.value
    def ev_Name(self, n, env): return self.load(n.id, env)

    def ev_Attribute(self, n, env):
        if n.attr == '__class__' and isinstance(n.value, ast.Name): pass
        return self.getattr(self.ev(n.value, env), n.attr)

    def ev_slice(self, sl, env):
        if isinstance(sl, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        return self.ev(sl, env)

    def ev_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_slice(n.slice, env))

    def elts(self, ns, env):
        out = []
        for e in ns:
            if isinstance(e, ast.Starred): out.extend(self.listify(self.ev(e.value, env)))
            else: out.append(self.ev(e, env))
        return out

    def ev_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def ev_List(self, n, env): return HList(self.p, self.elts(n.elts, env))
    def ev_Set(self, n, env): return self.intr.mk_set(self, self.elts(n.elts, env))

    def ev_Dict(self, n, env):
        d = HDict(self.p)
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.force(self.ev(v, env))
                o = self.lift(o)
                if isinstance(o, HInst): raise Unsupported("** of an instance")
                if not isinstance(o, HDict): self.raise_(TypeError, "'object' is not a mapping")
                for e in self.dict_ents(o): self.dict_set(d, e.key, e.value)
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1: return v
            v = self.force(v)
            t = self.truth_term(v)
            if not isinstance(t, bool) and isinstance(v, SBool) and merge_ok_file(n):
                rest = n.values[i + 1:]

                def go(rest=rest):
                    if len(rest) == 1: return self.ev(rest[0], env)
                    return self.ev_BoolOp(sub_boolop(n, i + 1), env)
                short = lambda: (not isand)
                ok, r = self.try_merge(e, t, env, go if isand else short, short if isand else go)
                if ok: return r
            t = self.decide(t)
            if isinstance(v, SBool): v = t
            if t != isand: return v
        return v

    def ev_UnaryOp(self, n, env):
        v = self.force(self.ev(n.operand, env))
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            if t is True or t is False: return not t
            return self.mk_bool(z3.Not(t))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (STD, timedelta)): return self.mk_td(-td_us(v))
            nm = self.num(v)
            if nm is None:
                self.raise_(TypeError, "bad operand type for unary -")
            if not is_sym(v): return -v
            return self.mk_int(-nm[1]) if nm[0] == 'i' else self.mk_real(-nm[1])
        if isinstance(n.op, ast.UAdd): return v
        if not is_sym(v): return ~v
        raise Unsupported("~")

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

    def compare1(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            t = self.eq(a, b)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            t = self.is_(a, b)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            t = self.contains(b, a)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        return self.cmp(self.CMP[type(op)], a, b)

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        terms = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env)
            t = self.compare1(op, left, right)
            if len(n.ops) == 1:
                return self.mk_bool(t)
            if not self.decide(t if isinstance(t, bool) else t): return False
            left = right
        return True

    def ev_IfExp(self, n, env):
        t = self.truth_term(self.ev(n.test, env))
        if not isinstance(t, bool) and merge_ok_file(n):
            ok, v = self.try_merge(n, t, env, lambda: self.ev(n.body, env), lambda: self.ev(n.orelse, env))
            if ok: return v
        return self.ev(n.body if self.decide(t) else n.orelse, env)

    def ev_IfExp_old(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def ev_Lambda(self, n, env): return self.mk_func(n, env)

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def ev_Await(self, n, env): return self.await_(self.ev(n.value, env))

    def ev_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else: parts.append(self.ev_FormattedValue(v, env))
        return self.mk_fmt(parts)

    def ev_FormattedValue(self, v, env):
        x = self.ev(v.value, env)
        if v.conversion != -1 or v.format_spec is not None:
            x = self.force(x)
            spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
            if fully_concrete(x) and fully_concrete(spec):
                if v.conversion == ord('r'): x = repr(x)
                elif v.conversion == ord('s'): x = str(x)
                try: return format(x, spec)
                except Exception as e: raise native_exc(e)
            if isinstance(spec, str) and not spec:
                return SFmt([self.to_str_part(x) if v.conversion != ord('r') else SFmt([x])])
            return self.intr.format_spec(self, x, spec)
        return self.to_str_part(x)

    # comprehensions
    def comp_iter(self, gens, env, emit):
        """emit(env) for every innermost iteration; SymSegs go to the world's summariser."""
        def rec(k, e):
            if k == len(gens):
                emit(e)
                return
            g = gens[k]
            it = self.ev(g.iter, e)
            for x in self.iterate(it):
                if isinstance(x, SymSeg):
                    raise Unsupported("comprehension over a symbolic segment")
                e2 = e
                self.assign(g.target, x, e2)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c, e2)):
                        ok = False
                        break
                if ok: rec(k + 1, e2)
        e = self.comp_env(gens, env)
        rec(0, e)

    def comp_env(self, gens, env):
        names = set()

        def tgt(t):
            if isinstance(t, ast.Name): names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: tgt(e)
            elif isinstance(t, ast.Starred): tgt(t.value)
        for g in gens: tgt(g.target)
        e = Env(env.globs, env, frozenset(names), comp=True, cls=env.cls)
        e.selfv = env.selfv
        return e

    def has_seg(self, gens, env):
        return False

    def ev_ListComp(self, n, env):
        r = self.w.sym_comp(self, n, env, 'list')
        if r is not None: return r
        out = HList(self.p)
        self.comp_iter(n.generators, env, lambda e: out.items.append(self.ev(n.elt, e)))
        return out

    def ev_SetComp(self, n, env):
        out = []
        self.comp_iter(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return self.intr.mk_set(self, out)

    def ev_DictComp(self, n, env):
        d = HDict(self.p)

        def emit(e):
            k = self.ev(n.key, e)
            self.dict_set(d, k, self.ev(n.value, e))
        self.comp_iter(n.generators, env, emit)
        return d

    def ev_GeneratorExp(self, n, env):
        r = self.w.sym_comp(self, n, env, 'gen')
        if r is not None: return r
        gens = n.generators
        e0 = self.comp_env(gens, env)
        first = self.ev(gens[0].iter, env)

        def rec(k, e):
            if k == len(gens):
                yield self.ev(n.elt, e)
                return
            g = gens[k]
            it = first if k == 0 else self.ev(g.iter, e)
            for x in self.iterate(it):
                if isinstance(x, SymSeg): raise Unsupported("generator over a symbolic segment")
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    yield from rec(k + 1, e)
        return GenVal(rec(0, e0))

    def ev_Starred(self, n, env): raise Unsupported("starred")

    def ev_Call(self, n, env):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e.comp or e.cls is None:
                if e.parent is None: break
                e = e.parent
            return self.intr.Super(e.cls, e.selfv)
        if isinstance(n.func, ast.Name) and n.func.id == 'globals' and not n.args:
            e = env
            while e.parent is not None: e = e.parent
            # a fresh dict with the module's names: what the repository does with globals() is look names up
            return HDict(self.p, [Ent(k, v) for k, v in e.globs.items() if not k.startswith('__')])
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                xs = self.listify(self.ev(a.value, env))
                if any(isinstance(x, SymSeg) for x in xs): raise Unsupported("* of a symbolic list")
                args.extend(xs)
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, env))
                d = self.lift(d)
                if not isinstance(d, HDict): self.raise_(TypeError, "argument after ** must be a mapping")
                for e in self.dict_ents(d):
                    kk = self.force(e.key)
                    if isinstance(kk, SAtom): kk = self.intr.atom_concretise(self, kk)
                    if not isinstance(kk, str): self.raise_(TypeError, "keywords must be strings")
                    if kk in kwargs: self.raise_(TypeError, f"got multiple values for keyword argument '{kk}'")
                    kwargs[kk] = e.value
            else:
                if k.arg in kwargs: self.raise_(TypeError, "multiple values for keyword argument")
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs)
