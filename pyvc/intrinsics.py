"""Contracts (assumed) for builtins and library functions used by the code under verification."""
import asyncio
import builtins
import collections
import copy
import dataclasses
import functools
import hashlib
import inspect
import itertools
import logging
import operator
import os
import random
import re
import ssl
import time
import traceback
import types
import uuid
import warnings
from collections import OrderedDict, defaultdict
from datetime import datetime, timedelta, timezone, tzinfo
from http import HTTPStatus

import z3
from .values import *
from .path import Budget

MISSING = None  # set below


class OpaqueType:
    pass


OPQ_TYPES = {}
TABLE = {}
USED = set()        # names of assumed library contracts used in this run


def _init():
    global MISSING
    from . import interp
    MISSING = interp.MISSING


def lookup(f):
    try:
        r = TABLE.get(f)
    except TypeError:
        return None
    if r is not None:
        USED.add((getattr(f, '__module__', None) or '') + '.' + getattr(f, '__qualname__', str(f)))
    return r


def intrinsic(*objs):
    def deco(fn):
        for o in objs: TABLE[o] = fn
        return fn
    return deco


NATIVE_MODULES = {'builtins', 're', '_sre', 'datetime', 'math', 'collections', 'operator', 'itertools', 'functools',
                  'string', 'textwrap', 'http', 'copy', '_operator', 'enum', 'hashlib', '_hashlib', 'ssl', 'base64',
                  'binascii', 'json', '_datetime', 'urllib.parse', 'types', 'typing'}


def native_ok(f):
    m = getattr(f, '__module__', None)
    if f in (open, exec, eval, compile, input, __import__): return False
    return m in NATIVE_MODULES or (isinstance(f, type) and f.__module__ in NATIVE_MODULES)


class Super:
    """super() proxy: resolved by value_attr of the interpreter through getattr."""
    def __init__(self, cls, obj):
        self._cls, self._obj = cls, obj

    def verif_get(self, name):
        o, c = self._obj, self._cls
        mro = o.cls.__mro__
        for k in mro[mro.index(c) + 1:]:
            if name in k.__dict__:
                if k is object and name == '__init__':
                    return NativeFn(lambda it, a, kw: None)
                a = k.__dict__[name]
                if isinstance(a, types.FunctionType): return BMethod(o, a)
                if issubclass(k, BaseException) and name == '__init__':
                    def init(it, a, kw):
                        o.fields['args'] = tuple(a)
                    return NativeFn(init)
                return a
        raise AttributeError(name)


# ------------------------------------------------------------------ builtins
@intrinsic(len)
def _len(it, a, k):
    t = it.len_term(a[0])
    if isinstance(t, (int, Sym)): return t
    return it.mk_int(t)


@intrinsic(isinstance)
def _isinstance(it, a, k): return it.isinstance_(a[0], a[1])


@intrinsic(issubclass)
def _issubclass(it, a, k):
    try: return issubclass(a[0], a[1])
    except TypeError as e:
        from .interp import native_exc
        raise native_exc(e)


@intrinsic(callable)
def _callable(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (FuncVal, BMethod, NativeFn)): return True
    if isinstance(v, SOpq): return v.kind == 'callable'
    if isinstance(v, HInst): return it.class_attr(v.cls, '__call__') is not MISSING
    if isinstance(v, (Sym, HObj, CoroVal, GenVal)): return False
    return callable(v)


@intrinsic(hasattr)
def _hasattr(it, a, k):
    o = it.force(a[0])
    n = it.force(a[1])
    if isinstance(n, SAtom): n = atom_concretise(it, n)
    return it.getattr(o, n, default=_NO) is not _NO


_NO = object()


@intrinsic(getattr)
def _getattr(it, a, k):
    n = it.force(a[1])
    if isinstance(n, SAtom): n = atom_concretise(it, n)
    if not isinstance(n, str): raise Unsupported("getattr name")
    if len(a) > 2:
        r = it.getattr(a[0], n, default=_NO)
        return a[2] if r is _NO else r
    return it.getattr(a[0], n)


@intrinsic(setattr)
def _setattr(it, a, k):
    n = it.force(a[1])
    if isinstance(n, SAtom): n = atom_concretise(it, n)
    it.setattr(a[0], n, a[2])


@intrinsic(delattr)
def _delattr(it, a, k):
    o = it.force(a[0])
    if isinstance(o, HInst) and a[1] in o.fields: del o.fields[a[1]]
    else: it.raise_(AttributeError, a[1])


@intrinsic(str)
def _str(it, a, k):
    if not a: return ''
    if fully_concrete(a) and fully_concrete(k):
        try: return str(*a, **k)
        except Exception as e:
            from .interp import native_exc
            raise native_exc(e)
    if len(a) > 1 or k: raise Unsupported("str(bytes, enc) symbolic")
    p = it.to_str_part(a[0])
    if isinstance(p, (str, SAtom, SText)): return p
    return it.mk_fmt([p])


@intrinsic(repr)
def _repr(it, a, k):
    if fully_concrete(a[0]): return repr(a[0])
    return SFmt([a[0]])


@intrinsic(bool)
def _bool(it, a, k):
    return it.mk_bool(it.truth_term(a[0])) if a else False


@intrinsic(int)
def _int(it, a, k):
    if not a: return 0
    v = it.force(a[0])
    if isinstance(v, SInt): return v
    if isinstance(v, SBool): return it.mk_int(z3.If(v.t, 1, 0))
    if isinstance(v, SReal):
        return it.mk_int(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if isinstance(v, SFmt):
        n = it.fmt_norm(v)
        if len(n) == 1 and isinstance(n[0], SInt): return n[0]
        from . import rx
        return rx.fmt_int(it, v)
    if isinstance(v, SText):
        return text_int(it, v)
    if isinstance(v, SAtom):
        c = atom_concretise(it, v)
        a = [c] + a[1:]
    elif is_sym(v):
        if isinstance(v, SOpq): raise Unsupported("int() of an opaque value")
        if isinstance(v, SFmt): raise Unsupported("int() of a formatted string")
        it.raise_(TypeError, f"int() argument must be a string or a number, not '{it.pytype(v).__name__}'")
    try: return int(*a, **k)
    except Exception as e:
        from .interp import native_exc
        raise native_exc(e)


@intrinsic(float)
def _float(it, a, k):
    if not a: return 0.0
    v = it.force(a[0])
    if isinstance(v, SInt): return it.mk_real(z3.ToReal(v.t))
    if isinstance(v, SReal): return v
    if isinstance(v, SBool): return it.mk_real(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(v, SFmt):
        n = it.fmt_norm(v)
        if len(n) == 1 and isinstance(n[0], SReal): return n[0]
        if len(n) == 1 and isinstance(n[0], SInt): return it.mk_real(z3.ToReal(n[0].t))
        if not any(isinstance(x, SReal) for x in n):
            from . import rx
            return rx.fmt_float(it, v)
    if isinstance(v, SAtom):
        v = atom_concretise(it, v)
    elif isinstance(v, SText): return text_float(it, v)
    elif is_sym(v):
        if isinstance(v, (SOpq, SFmt)): raise Unsupported("float() of an opaque value")
        it.raise_(TypeError, "float() argument must be a string or a real number")
    try: return float(v)
    except Exception as e:
        from .interp import native_exc
        raise native_exc(e)


@intrinsic(abs)
def _abs(it, a, k):
    v = it.force(a[0])
    if isinstance(v, SInt): return it.mk_int(z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, SReal): return it.mk_real(z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, STD): return it.mk_td(z3.If(v.us >= 0, v.us, -v.us))
    if is_sym(v): raise Unsupported("abs")
    try: return abs(v)
    except Exception as e:
        from .interp import native_exc
        raise native_exc(e)


@intrinsic(divmod)
def _divmod(it, a, k): return (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1]))


@intrinsic(round)
def _round(it, a, k):
    if fully_concrete(a): return round(*a)
    raise Unsupported("round")


@intrinsic(list)
def _list(it, a, k):
    if not a: return HList(it.p)
    return HList(it.p, it.listify(a[0]))


@intrinsic(tuple)
def _tuple(it, a, k):
    if not a: return ()
    xs = it.listify(a[0])
    if any(isinstance(x, SymSeg) for x in xs): raise Unsupported("tuple of symbolic length")
    return tuple(xs)


def mk_set(it, xs):
    out = []
    for x in xs:
        x = it.check_hashable(x)
        if not it.decide(it.disj([it.eq(x, y) for y in out])): out.append(x)
    return HSet(it.p, out)


@intrinsic(set, frozenset)
def _set(it, a, k):
    return mk_set(it, it.listify(a[0]) if a else [])


@intrinsic(dict, OrderedDict)
def _dict(it, a, k):
    d = HDict(it.p)
    if a:
        v = it.lift(it.force(a[0]))
        if isinstance(v, HDict):
            if v.openf is not None:
                return dict_copy(it, v)
            for e in it.dict_ents(v): it.dict_set(d, e.key, e.value)
        else:
            for x in it.listify(v):
                kk, vv = it.listify(x)
                it.dict_set(d, kk, vv)
    for kk, vv in k.items(): it.dict_set(d, kk, vv)
    return d


@intrinsic(defaultdict)
def _defaultdict(it, a, k):
    d = HDict(it.p, cls=defaultdict)
    d.default_factory = a[0] if a else None
    return d


def dict_copy(it, d):
    n = HDict(it.p, [e.copy() for e in d.ents], d.openf, d.cls)
    n.default_factory = d.default_factory
    return n


@intrinsic(range)
def _range(it, a, k):
    vs = [it.force(x) for x in a]
    if all(isinstance(x, int) for x in vs):
        try: return range(*vs)
        except Exception as e:
            from .interp import native_exc
            raise native_exc(e)
    return it.w.sym_range(it, vs)


@intrinsic(enumerate)
def _enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    v = it.force(a[0])
    if isinstance(v, HList) and not v.concrete:
        return it.w.seq_enumerate(it, v, start)

    def gen():
        i = start
        for x in it.iterate(v):
            if isinstance(x, SymSeg): raise Unsupported("enumerate of a symbolic segment")
            yield (i, x)
            i = it.binop('Add', i, 1)
    return GenVal(gen())


@intrinsic(zip)
def _zip(it, a, k):
    its = [it.iterate(x) for x in a]

    def gen():
        while True:
            row = []
            for i in its:
                try: x = next(i)
                except StopIteration: return
                if isinstance(x, SymSeg): raise Unsupported("zip of a symbolic segment")
                row.append(x)
            yield tuple(row)
    return GenVal(gen())


@intrinsic(map)
def _map(it, a, k):
    its = _zip(it, a[1:], {})
    return GenVal(it.call(a[0], list(row), {}) for row in its.it)


@intrinsic(filter)
def _filter(it, a, k):
    def gen():
        for x in it.iterate(a[1]):
            if isinstance(x, SymSeg): raise Unsupported("filter of a symbolic segment")
            if it.truth(x if a[0] is None else it.call(a[0], [x], {})): yield x
    return GenVal(gen())


@intrinsic(reversed)
def _reversed(it, a, k):
    xs = it.listify(a[0])
    if any(isinstance(x, SymSeg) for x in xs): raise Unsupported("reversed symbolic")
    return GenVal(iter(xs[::-1]))


@intrinsic(iter)
def _iter(it, a, k): return GenVal(it.iterate(a[0]))


@intrinsic(next)
def _next(it, a, k):
    g = it.force(a[0])
    if not isinstance(g, GenVal): it.raise_(TypeError, "not an iterator")
    r = it.w.sym_next(it, g, a)
    if r is not None: return r[0]
    try: return next(g.it)
    except StopIteration:
        if len(a) > 1: return a[1]
        it.raise_(StopIteration)


@intrinsic(any)
def _any(it, a, k):
    r = it.w.sym_anyall(it, a[0], True)
    if r is not None: return r
    for x in it.iterate(a[0]):
        if it.truth(x): return True
    return False


@intrinsic(all)
def _all(it, a, k):
    r = it.w.sym_anyall(it, a[0], False)
    if r is not None: return r
    for x in it.iterate(a[0]):
        if not it.truth(x): return False
    return True


@intrinsic(sum)
def _sum(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    for x in it.iterate(a[0]):
        if isinstance(x, SymSeg): raise Unsupported("sum of a symbolic segment")
        start = it.binop('Add', start, x)
    return start


def _minmax(it, a, k, op):
    key = k.get('key')
    if len(a) == 1:
        xs = it.listify(a[0])
    else: xs = a
    if any(isinstance(x, SymSeg) for x in xs):
        return it.w.sym_minmax(it, xs, key, op, k)
    if not xs:
        if 'default' in k: return k['default']
        it.raise_(ValueError, f"{'min' if op == '<' else 'max'}() iterable argument is empty")
    best = xs[0]
    bk = best if key is None else it.call(key, [best], {})
    for x in xs[1:]:
        kx = x if key is None else it.call(key, [x], {})
        c = it.cmp(op, kx, bk)
        if c is True: best, bk = x, kx
        elif c is False: pass
        else:
            m = merge(it, c, kx, bk) if key is None else None
            if m is not None: best = bk = m
            elif it.decide(c): best, bk = x, kx
    return best


def merge(it, c, a, b):
    """ite(c, a, b) as one value of the same kind, or None."""
    a, b = it.force(a), it.force(b)
    na, nb = it.num(a), it.num(b)
    if na and nb and 'inf' not in (na[0], nb[0]):
        if na[0] == 'i' and nb[0] == 'i' and not isinstance(a, (bool, SBool)) and not isinstance(b, (bool, SBool)):
            return it.mk_int(z3.If(c, na[1], nb[1]))
        if na[0] == 'r' and nb[0] == 'r':
            return it.mk_real(z3.If(c, na[1], nb[1]))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            ta = a.t if isinstance(a, SBool) else z3.BoolVal(a)
            tb = b.t if isinstance(b, SBool) else z3.BoolVal(b)
            return it.mk_bool(z3.If(c, ta, tb))
        return None
    if isinstance(a, (STD, timedelta)) and isinstance(b, (STD, timedelta)):
        return it.mk_td(z3.If(c, td_us(a), td_us(b)))
    if isinstance(a, (SDT, datetime)) and isinstance(b, (SDT, datetime)) and dt_aware(a) == dt_aware(b):
        return it.mk_dt(z3.If(c, dt_us(a), dt_us(b)), dt_aware(a))
    if isinstance(a, (str, SAtom)) and isinstance(b, (str, SAtom)):
        if isinstance(a, str) and isinstance(b, str) and a == b: return a
        ta = intern(a) if isinstance(a, str) else a.t
        tb = intern(b) if isinstance(b, str) else b.t
        ca = (a,) if isinstance(a, str) else a.choices
        cb = (b,) if isinstance(b, str) else b.choices
        return SAtom(z3.If(c, ta, tb), tuple(dict.fromkeys(ca + cb)) if ca and cb else None)
    if isinstance(a, SOpq) and isinstance(b, SOpq) and a.kind == b.kind:
        return SOpq(z3.If(c, a.t, b.t), a.kind)
    if a is b: return a
    return None


@intrinsic(min)
def _min(it, a, k): return _minmax(it, a, k, '<')


@intrinsic(max)
def _max(it, a, k): return _minmax(it, a, k, '>')


def stable_sort(it, xs, key, reverse):
    ks = [(x if key is None else it.call(key, [x], {}), x) for x in xs]
    out = []
    src = ks if not reverse else ks[::-1]
    for kx, x in src:           # stable insertion sort
        j = len(out)
        while j > 0 and it.decide(it.cmp('<', kx, out[j - 1][0])): j -= 1
        out.insert(j, (kx, x))
    r = [x for _, x in out]
    return r[::-1] if reverse else r


@intrinsic(sorted)
def _sorted(it, a, k):
    v = it.force(a[0])
    rev = it.truth(k.get('reverse', False))
    xs = it.listify(v)
    if any(isinstance(x, SymSeg) for x in xs):
        return it.w.seq_sorted(it, xs, k.get('key'), rev)
    return HList(it.p, stable_sort(it, xs, k.get('key'), rev))


@intrinsic(staticmethod)
def _staticmethod(it, a, k): return staticmethod(a[0])


@intrinsic(print, traceback.print_exc)
def _print(it, a, k): return None


@intrinsic(traceback.format_exc)
def _fmt_exc(it, a, k): return 'traceback'


@intrinsic(type)
def _type(it, a, k):
    if len(a) == 1: return it.pytype(it.force(a[0]))
    raise Unsupported("type()")


@intrinsic(id)
def _id(it, a, k): raise Unsupported("id()")


@intrinsic(dir)
def _dir(it, a, k):
    """names of the instance and its classes, those every object has left out"""
    v = it.force(a[0])
    if isinstance(v, HInst):
        names = set(v.fields)
        for c in v.cls.__mro__[:-1]: names.update(c.__dict__)
        names -= set(dir(object))
        return HList(it.p, sorted(names))
    if fully_concrete(v): return HList(it.p, dir(v))
    raise Unsupported("dir()")


@intrinsic(copy.copy)
def _copy(it, a, k):
    v = it.force(a[0])
    if isinstance(v, HList): return HList(it.p, v.items)
    if isinstance(v, HDict): return dict_copy(it, v)
    if isinstance(v, HSet): return HSet(it.p, v.items)
    if isinstance(v, HInst): return HInst(it.p, v.cls, v.fields)
    return v


def deep(it, v, memo):
    v = it.force(v) if isinstance(v, SUnion) and any(isinstance(x, HObj) for _, x in v.alts) else v
    if isinstance(v, HObj):
        if id(v) in memo: return memo[id(v)]
        if isinstance(v, HList):
            if not v.concrete: return it.w.seq_deepcopy(it, v)
            n = memo[id(v)] = HList(it.p)
            n.items = [deep(it, x, memo) for x in v.items]
        elif isinstance(v, HDict):
            if v.openf: raise Unsupported("deepcopy of an open dict")
            n = memo[id(v)] = HDict(it.p, cls=v.cls)
            n.ents = [Ent(deep(it, e.key, memo), deep(it, e.value, memo), e.present) for e in v.ents]
        elif isinstance(v, HSet):
            n = memo[id(v)] = HSet(it.p, v.items)
        else:
            n = memo[id(v)] = HInst(it.p, v.cls)
            n.fields = {x: deep(it, y, memo) for x, y in v.fields.items()}
        return n
    if isinstance(v, tuple): return tuple(deep(it, x, memo) for x in v)
    return v


@intrinsic(copy.deepcopy)
def _deepcopy(it, a, k): return deep(it, a[0], {})


@intrinsic(dataclasses.is_dataclass)
def _is_dataclass(it, a, k):
    v = it.force(a[0])
    if isinstance(v, HInst): return dataclasses.is_dataclass(v.cls)
    if is_sym(v): return False
    return dataclasses.is_dataclass(v)


@intrinsic(dataclasses.asdict)
def _asdict(it, a, k):
    v = it.force(a[0])
    if not (isinstance(v, HInst) and dataclasses.is_dataclass(v.cls)):
        it.raise_(TypeError, "asdict() should be called on dataclass instances")

    def conv(v):
        if isinstance(v, SUnion): v = it.force(v)
        if isinstance(v, HInst) and dataclasses.is_dataclass(v.cls):
            return HDict(it.p, [Ent(f.name, conv(v.fields[f.name])) for f in dataclasses.fields(v.cls)])
        if isinstance(v, HList):
            if not v.concrete: return it.w.seq_map(it, v, conv)
            return HList(it.p, [conv(x) for x in v.items])
        if isinstance(v, tuple): return tuple(conv(x) for x in v)
        if isinstance(v, HDict):
            if v.openf: raise Unsupported("asdict of an open dict")
            return HDict(it.p, [Ent(conv(e.key), conv(e.value), e.present) for e in v.ents])
        return deep(it, v, {})
    return conv(v)


@intrinsic(dataclasses.fields)
def _fields(it, a, k):
    v = it.force(a[0])
    return dataclasses.fields(v.cls if isinstance(v, HInst) else v)


@intrinsic(dataclasses.replace)
def _replace(it, a, k):
    v = it.force(a[0])
    if isinstance(v, HInst): d = dict(v.fields)
    else: d = {f.name: it.lift(getattr(v, f.name)) for f in dataclasses.fields(v) if f.init}
    d.update(k)
    if not isinstance(v, HInst): return it.dataclass_init(type(v), [], d)
    return it.dataclass_init(v.cls, [], {f.name: d[f.name] for f in dataclasses.fields(v.cls) if f.init})


# ------------------------------------------------------------------ asyncio
@intrinsic(asyncio.iscoroutine)
def _iscoro(it, a, k): return isinstance(it.force(a[0]), CoroVal)


@intrinsic(asyncio.isfuture)
def _isfuture(it, a, k):
    v = it.force(a[0])
    return isinstance(v, HInst) and issubclass(v.cls, asyncio.Future)


@intrinsic(inspect.isawaitable)
def _isawaitable(it, a, k): return isinstance(it.force(a[0]), CoroVal)


def _is_async_fn(v):
    import ast
    if isinstance(v, BMethod): v = v.func
    if isinstance(v, FuncVal): return isinstance(v.node, ast.AsyncFunctionDef)
    if isinstance(v, types.FunctionType): return inspect.iscoroutinefunction(v)
    return False


@intrinsic(asyncio.iscoroutinefunction, inspect.iscoroutinefunction)
def _iscorofn(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (SOpq, HInst, NativeFn)): raise Unsupported("iscoroutinefunction of an opaque callable")
    return _is_async_fn(v)


@intrinsic(asyncio.wait_for)
def _wait_for(it, a, k):
    t = a[1] if len(a) > 1 else k.get('timeout')
    if it.force(t) is not None: raise Unsupported("wait_for with a time limit")

    def run(): return it.await_(a[0])
    return CoroVal(run, 'wait_for')


@intrinsic(asyncio.shield)
def _shield(it, a, k):
    def run(): return it.await_(a[0])
    return CoroVal(run, 'shield')


@intrinsic(asyncio.gather)
def _gather(it, a, k):
    def run():
        return HList(it.p, [it.await_(x) for x in a])
    return CoroVal(run, 'gather')


@intrinsic(asyncio.sleep)
def _sleep(it, a, k):
    it.w.record('asyncio.sleep', a, k)
    return CoroVal(lambda: None, 'sleep')


@intrinsic(asyncio.create_task, asyncio.ensure_future)
def _create_task(it, a, k):
    it.w.record('asyncio.create_task', a, k)
    return SOpq(it.p.fresh(z3.IntSort(), 'task'), 'task')


# ------------------------------------------------------------------ time
@intrinsic(datetime.now)
def _now(it, a, k):
    tz = a[0] if a else k.get('tz')
    us = it.w.next_now(it)
    if tz is None: return SDT(us + it.w.local_offset(it), False)
    return SDT(us, True)


@intrinsic(datetime.utcnow)
def _utcnow(it, a, k): return SDT(it.w.next_now(it), False)


@intrinsic(timedelta)
def _timedelta(it, a, k):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    vals = dict(zip(names, a))
    vals.update(k)
    vals = {n: it.force(v) for n, v in vals.items()}
    if fully_concrete(vals):
        try: return timedelta(**vals)
        except Exception as e:
            from .interp import native_exc
            raise native_exc(e)
    mul = {'days': 86400 * US, 'seconds': US, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * US,
           'hours': 3600 * US, 'weeks': 7 * 86400 * US}
    tot = 0
    for n, v in vals.items():
        nm = it.num(v)
        if nm is None: it.raise_(TypeError, "unsupported type for timedelta component")
        if nm[0] == 'i': tot = tot + nm[1] * mul[n]
        elif nm[0] == 'r':
            t = z3.simplify(nm[1] * mul[n])
            if isinstance(v, SReal) and v.t.decl().kind() == z3.Z3_OP_TO_REAL:
                tot = tot + v.t.arg(0) * mul[n]
            else:
                # exact only when the product is integral; otherwise rounding is abstracted
                r = it.p.fresh(z3.IntSort(), 'tdround')
                it.p.add(z3.And(z3.ToReal(r) - t <= z3.RealVal('1/2'), t - z3.ToReal(r) <= z3.RealVal('1/2')))
                tot = tot + r
        else: raise Unsupported("timedelta of infinity")
    return it.mk_td(tot)


@intrinsic(datetime)
def _datetime(it, a, k):
    if fully_concrete(a) and fully_concrete(k):
        try: return datetime(*a, **k)
        except Exception as e:
            from .interp import native_exc
            raise native_exc(e)
    return it.w.sym_datetime(it, a, k)


@intrinsic(datetime.fromtimestamp, datetime.strptime, time.time, time.monotonic)
def _ts(it, a, k):
    if a and fully_concrete(a): raise Unsupported("timestamp")
    raise Unsupported("timestamp")


@intrinsic(uuid.uuid4)
def _uuid(it, a, k):
    return HInst(it.p, uuid.UUID, {'_s': it.w.fresh_id(it), 'hex': it.w.fresh_id(it)})


TABLE[uuid.UUID] = None
del TABLE[uuid.UUID]


@intrinsic(random.uniform, random.random, random.randint)
def _rand(it, a, k):
    return SReal(it.p.fresh(z3.RealSort(), 'rand'))


# ------------------------------------------------------------------ logging / warnings
def _noop(it, a, k): return None


for _n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'):
    TABLE[getattr(logging.Logger, _n)] = _noop
    TABLE[getattr(logging, _n)] = _noop
TABLE[warnings.warn] = _noop
TABLE[logging.Logger.isEnabledFor] = lambda it, a, k: True
TABLE[logging.getLogger] = lambda it, a, k: logging.getLogger(*a)


# ------------------------------------------------------------------ os.path etc. (only through stubs)
@intrinsic(functools.partial)
def _partial(it, a, k):
    f, rest = a[0], a[1:]
    return NativeFn(lambda it2, a2, k2: it2.call(f, rest + a2, {**k, **k2}), 'partial')


@intrinsic(inspect.signature)
def _signature(it, a, k):
    f = it.force(a[0])
    names = it.w.signature_of(it, f)
    return HInst(it.p, _Sig, {'parameters': HDict(it.p, [Ent(n, n) for n in names])})


class _Sig:
    pass


@intrinsic(itertools.chain)
def _chain(it, a, k):
    def gen():
        for x in a: yield from it.iterate(x)
    return GenVal(gen())


@intrinsic(itertools.chain.from_iterable)
def _chainfi(it, a, k):
    def gen():
        for x in it.iterate(a[0]):
            if isinstance(x, SymSeg): raise Unsupported("chain")
            yield from it.iterate(x)
    return GenVal(gen())


@intrinsic(operator.itemgetter)
def _itemgetter(it, a, k):
    return NativeFn(lambda i, b, kk: i.getitem(b[0], a[0]) if len(a) == 1 else tuple(i.getitem(b[0], x) for x in a))


@intrinsic(operator.attrgetter)
def _attrgetter(it, a, k):
    if len(a) != 1 or '.' in a[0]: raise Unsupported("attrgetter")
    return NativeFn(lambda i, b, kk: i.getattr(b[0], a[0]))


# ------------------------------------------------------------------ re
def opaque_match(it, pattern, how, t):
    """whether a string of unknown content matches: an uninterpreted predicate"""
    from . import lib
    p = pattern if isinstance(pattern, str) else pattern.pattern
    it.p.abstract = True
    f = z3.Function(f're:{how}:{p}', t.sort(), z3.BoolSort())
    if not it.decide(f(t)): return None
    return HInst(it.p, lib.Match, {'all': (SOpq(it.p.fresh(z3.IntSort(), 'group'), 'match group'),), 'names': HDict(it.p)})


def re_call(it, pattern, how, s, flags=0):
    s = it.force(s)
    if isinstance(s, str) and isinstance(pattern, (str, re.Pattern)):
        m = getattr(re, how)(pattern, s) if isinstance(pattern, str) else getattr(pattern, how)(s)
        return m
    if s is None or is_num(s) or isinstance(s, (HObj, SDT, STD)):
        it.raise_(TypeError, "expected string or bytes-like object")
    if isinstance(s, SAtom):
        if s.choices is not None and isinstance(pattern, (str, re.Pattern)) and \
                all(isinstance(c, str) and getattr(re, how)(pattern, c) is None for c in s.choices): return None
        if s.choices is not None or atom_known(s) is not None:
            return re_call(it, pattern, how, atom_concretise(it, s))
        return opaque_match(it, pattern, how, s.t)
    if isinstance(s, SFmt):
        ps = it.fmt_norm(s)
        if len(ps) == 1 and isinstance(ps[0], SAtom): return re_call(it, pattern, how, ps[0])
        if len(ps) == 1 and isinstance(ps[0], SReal):
            # the text of a float: never that of an int
            if (pattern if isinstance(pattern, str) else pattern.pattern) == r'^-?\d+$': return None
            return opaque_match(it, pattern, how, ps[0].t)
    from . import rx
    return rx.match(it, pattern if isinstance(pattern, str) else pattern.pattern, how, s)


for _h in ('match', 'fullmatch', 'search'):
    TABLE[getattr(re, _h)] = (lambda how: lambda it, a, k: re_call(it, a[0], how, a[1]))(_h)


@intrinsic(re.sub)
def _resub(it, a, k):
    if fully_concrete(a): return re.sub(*a, **k)
    s = it.force(a[2]) if len(a) > 2 else None
    if is_markup(s) and fully_concrete(a[:2]) and (a[0] if isinstance(a[0], str) else a[0].pattern) in MARKUP_PATTERNS:
        cx = wire_ctx(it)
        return cx.back(re.sub(a[0], a[1], cx.text(s)))
    raise Unsupported("re.sub on a symbolic string")


MARKUP_PATTERNS = {r'>\s+<', r'\n', r'\s\s+', r'\s+', r'>\s*<', r'>\s*\n\s*<', r'(?<=>)\s+(?=<)'}


def is_markup(s):
    return isinstance(s, SFmt) and any(isinstance(x, str) and '<' in x for x in s.parts)


def wire_ctx(it):
    from . import wire
    USED.add('white space in markup is removed outside values only')
    return wire.Ctx(it)


# ------------------------------------------------------------------ strings
def ite_leaves(t, out, n=64):
    if z3.is_int_value(t):
        out.add(t.as_long())
        return len(out) <= n
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return ite_leaves(t.arg(1), out, n) and ite_leaves(t.arg(2), out, n)
    return False


def atom_known(a):
    """the strings an atom can be, if that is a known finite set"""
    if a.choices is not None: return list(a.choices)
    out = set()
    if ite_leaves(z3.simplify(a.t), out):
        from .values import _REV
        if all(c in _REV for c in out): return [_REV[c] for c in sorted(out)]
    return None


def atom_concretise(it, a):
    if a.choices is None:
        known = atom_known(a)
        if known is None: raise Unsupported("content of an opaque string")
        a = SAtom(a.t, tuple(known))
    for c in a.choices[:-1]:
        if it.decide(a.t == intern(c)): return c
    it.p.add(a.t == intern(a.choices[-1]))
    return a.choices[-1]


def str_contains(it, s, x):
    if isinstance(s, SAtom) and isinstance(x, (str, SAtom)):
        if s.choices is not None:
            return str_contains(it, atom_concretise(it, s), x)
    if isinstance(x, SAtom) and x.choices is not None: x = atom_concretise(it, x)
    if isinstance(s, str) and isinstance(x, str): return x in s
    if not is_strlike(x): it.raise_(TypeError, "'in <string>' requires string as left operand")
    if isinstance(s, SText) and isinstance(x, (str, SText)):
        return it._b(z3.Contains(s.t, x.t if isinstance(x, SText) else z3.StringVal(x)))
    if isinstance(s, SAtom) and isinstance(x, str):
        it.p.abstract = True
        return z3.Function(f'contains:{x}', z3.IntSort(), z3.BoolSort())(s.t)
    if isinstance(s, str) and isinstance(x, SAtom):
        it.p.abstract = True
        return z3.Function(f'isin:{s}', z3.IntSort(), z3.BoolSort())(x.t)
    if isinstance(s, SAtom) and isinstance(x, SAtom):
        it.p.abstract = True
        f = z3.Function('contains', z3.IntSort(), z3.IntSort(), z3.BoolSort())(s.t, x.t)
        return z3.Or(s.t == x.t, x.t == intern(''), z3.And(s.t != intern(''), f))
    if isinstance(s, SFmt) and isinstance(x, str):
        if any(isinstance(p, str) and x in p for p in s.parts): return True
        from . import rx
        if all(isinstance(p, str) or isinstance(p, SInt) for p in s.parts) and not re.search(r'[\d-]', x): return False
    raise Unsupported("substring test on symbolic strings")


def str_index(it, s, key):
    key = it.force(key)
    if isinstance(s, SAtom): return it.getitem(atom_concretise(it, s), key)
    if isinstance(s, SText) and isinstance(key, int):
        n = z3.Length(s.t)
        if it.decide(n > key if key >= 0 else n >= -key):
            return SText(z3.SubString(s.t, key if key >= 0 else n + key, 1))
        it.raise_(IndexError, "string index out of range")
    raise Unsupported("string index")


def str_slice(it, s, lo, hi, st):
    if isinstance(s, SAtom):
        return it.slice_(atom_concretise(it, s), slice(lo, hi, st))
    if isinstance(s, SText) and st is None:
        n = z3.Length(s.t)

        def norm(x, dflt):
            if x is None: return dflt
            if isinstance(x, int):
                if x >= 0: return z3.If(n < x, n, z3.IntVal(x))
                return z3.If(n + x < 0, z3.IntVal(0), n + x)
            raise Unsupported("slice")
        l, h = norm(lo, z3.IntVal(0)), norm(hi, n)
        return SText(z3.SubString(s.t, l, h - l))
    if isinstance(s, SFmt) and st is None:
        parts = it.fmt_norm(s)
        if isinstance(lo, int) and lo >= 0 and hi is None and isinstance(parts[0], str) and len(parts[0]) >= lo:
            return it.mk_fmt([parts[0][lo:]] + parts[1:])
        if (lo is None or lo == 0) and isinstance(hi, int) and hi >= 0 and isinstance(parts[0], str) and len(parts[0]) >= hi:
            return parts[0][:hi]
    raise Unsupported("slice of a symbolic string")


def str_repeat(it, s, n):
    for k in range(0, 13):
        if it.decide(n.t <= k if k == 0 else n.t == k): return s * k
    raise Unsupported("str * int")


def text_concat(it, a, b):
    def t(x):
        if isinstance(x, SText): return x.t
        if isinstance(x, str): return z3.StringVal(x)
        return None
    x, y = t(a), t(b)
    if x is None or y is None: return None
    return SText(z3.Concat(x, y))


def text_int(it, v):
    from . import rx
    ok = z3.InRe(v.t, z3.Plus(z3.Range('0', '9')))
    if it.decide(ok): return it.mk_int(z3.StrToInt(v.t))
    neg = z3.InRe(v.t, z3.Concat(z3.Re('-'), z3.Plus(z3.Range('0', '9'))))
    if it.decide(neg): return it.mk_int(-z3.StrToInt(z3.SubString(v.t, 1, z3.Length(v.t) - 1)))
    raise Unsupported("int() of an arbitrary string")


FLOATFN = z3.Function('float_of_str', z3.StringSort(), z3.RealSort())


def text_float(it, v):
    d = z3.Plus(z3.Range('0', '9'))
    ds = z3.Star(z3.Range('0', '9'))
    num = z3.Concat(z3.Option(z3.Re('-')), z3.Union(d, z3.Concat(d, z3.Re('.'), ds), z3.Concat(ds, z3.Re('.'), d)))
    if it.decide(z3.InRe(v.t, num)):
        return SReal(FLOATFN(v.t))
    digdots = z3.Concat(z3.Option(z3.Re('-')), z3.Star(z3.Union(z3.Range('0', '9'), z3.Re('.'))))
    if it.decide(z3.InRe(v.t, digdots)):
        it.raise_(ValueError, "could not convert string to float")
    raise Unsupported("float() of an arbitrary string")


def format_spec(it, x, spec):
    if isinstance(x, SInt) and isinstance(spec, str):
        return SFmt([('fmt', x, spec)])
    return SFmt([('fmt', x, spec)])


@intrinsic(format)
def _format(it, a, k):
    x = it.force(a[0])
    spec = a[1] if len(a) > 1 else ''
    if fully_concrete(x) and fully_concrete(spec):
        try: return format(x, spec)
        except Exception as e:
            from .interp import native_exc
            raise native_exc(e)
    if spec == '': return it.mk_fmt([it.to_str_part(x)])
    return format_spec(it, x, spec)


def builtin_method(it, f, a, k):
    """bound builtin method of a concrete object"""
    o, name = f.__self__, f.__name__
    if isinstance(o, type):
        h = TABLE.get(f)
        if h: return h(it, a, k)
    if isinstance(o, (list, dict, set)):
        m = value_attr(it, it.lift(o), name)
        if m is not MISSING and name not in ('append', 'extend', 'update', 'pop', 'setdefault', 'insert', 'remove', 'clear', 'sort', 'add', 'discard', 'popitem'):
            return it.call(m, a, k)
    if fully_concrete(a) and fully_concrete(k):
        if isinstance(o, (list, dict, set)) and name in ('append', 'extend', 'update', 'pop', 'setdefault', 'insert',
                                                         'remove', 'clear', 'sort', 'add', 'discard', 'popitem'):
            raise Unsupported("mutation of a module-level container")
        try: return it.lift(f(*a, **k))
        except Exception as e:
            from .interp import native_exc
            raise native_exc(e)
    raise Unsupported(f"builtin method {f!r}")


def N(fn, name=''): return NativeFn(fn, name)


STR_UF = ('lower', 'upper', 'strip', 'title', 'capitalize', 'swapcase', 'lstrip', 'rstrip')


def str_attr(it, s, name):
    if not hasattr(str, name): return MISSING

    def call(it, a, k):
        a = [it.force(x) for x in a]
        v = s
        if isinstance(v, SAtom) and v.choices is not None and name != 'join':
            v = atom_concretise(it, v)
        a = [atom_concretise(it, x) if isinstance(x, SAtom) and x.choices is not None and name not in ('join', 'format')
             else x for x in a]
        if isinstance(v, str) and fully_concrete(a) and fully_concrete(k) and not any(isinstance(x, HObj) for x in a):
            try: return it.lift(getattr(v, name)(*a, **k))
            except Exception as e:
                from .interp import native_exc
                raise native_exc(e)
        if name in ('split', 'strip', 'lstrip', 'rstrip', 'splitlines', 'replace') and is_markup(v) \
                and fully_concrete(a) and all(isinstance(x, str) and (x.isspace() or '<' in x or x == '') for x in a[:1]):
            cx = wire_ctx(it)
            r = getattr(cx.text(v), name)(*a)
            return HList(it.p, [cx.back(x) for x in r]) if isinstance(r, list) else cx.back(r)
        if name == 'join':
            parts = []
            xs = it.listify(a[0])
            if any(isinstance(x, SymSeg) for x in xs): return SFmt([('join', v, id(a[0]))])
            for i, x in enumerate(xs):
                x = it.force(x)
                if i: parts.append(v)
                if not is_strlike(x):
                    it.raise_(TypeError, f"sequence item {i}: expected str instance, {it.pytype(x).__name__} found")
                parts.append(x)
            return it.mk_fmt(parts)
        if name == 'format':
            return SFmt([('format', v, tuple(a))])
        if name in ('startswith', 'endswith'):
            pre = a[0]
            if isinstance(v, SFmt) and isinstance(pre, str):
                ps = it.fmt_norm(v)
                if name == 'startswith' and isinstance(ps[0], str) and len(ps[0]) >= len(pre): return ps[0].startswith(pre)
                if name == 'endswith' and isinstance(ps[-1], str) and len(ps[-1]) >= len(pre): return ps[-1].endswith(pre)
            if isinstance(v, SText) and isinstance(pre, str):
                f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
                return it.mk_bool(f(z3.StringVal(pre), v.t))
            if isinstance(v, SAtom) and isinstance(pre, (str, tuple)):
                it.p.abstract = True
                return SBool(z3.Function(f'{name}:{pre}', z3.IntSort(), z3.BoolSort())(v.t))
        if name in ('isdigit', 'isalpha', 'isnumeric', 'isupper', 'islower', 'isalnum', 'isspace', 'isdecimal'):
            if isinstance(v, SAtom):
                it.p.abstract = True
                return SBool(z3.Function(name, z3.IntSort(), z3.BoolSort())(v.t))
        if name in STR_UF and isinstance(v, SAtom):
            it.p.abstract = True
            return SAtom(z3.Function('str_' + name + repr(tuple(a)) , z3.IntSort(), z3.IntSort())(v.t))
        if name in STR_UF and isinstance(v, SText) and not a:
            it.p.abstract = True
            return SText(z3.Function('text_' + name, z3.StringSort(), z3.StringSort())(v.t))
        if name == 'replace' and isinstance(v, SText) and all(isinstance(x, str) for x in a): 
            raise Unsupported("replace")
        if name == 'encode' and isinstance(v, (SAtom, SText)):
            return SFmt([('encode', v)])
        raise Unsupported(f"str.{name} on a symbolic string")
    return N(call, name)


def value_attr(it, o, name):
    if isinstance(o, (SAtom, SText, SFmt, str)): return str_attr(it, o, name)
    if isinstance(o, bytes): return getattr(o, name, MISSING)
    if isinstance(o, HList): return list_attr(it, o, name)
    if isinstance(o, HDict): return dict_attr(it, o, name)
    if isinstance(o, HSet): return set_attr(it, o, name)
    if isinstance(o, (SDT, datetime)): return dt_attr(it, o, name)
    if isinstance(o, (STD, timedelta)): return td_attr(it, o, name)
    if isinstance(o, CoroVal):
        if name == 'close': return N(lambda i, a, k: None)
        return MISSING
    if isinstance(o, SOpq):
        return it.w.opaque_attr(it, o, name)
    if isinstance(o, (SInt, SReal, SBool)):
        if not hasattr(it.pytype(o), name): return MISSING
        if name == 'is_integer' and isinstance(o, SReal): return N(lambda i, a, k: i.mk_bool(z3.IsInt(o.t)))
        raise Unsupported(f"number attribute {name}")
    return MISSING


def td_attr(it, o, name):
    us = td_us(o)
    if isinstance(o, timedelta):
        if name == 'total_seconds': return N(lambda i, a, k: o.total_seconds())
        return getattr(o, name, MISSING)
    D = 86400 * US
    if name == 'days': return it.mk_int(us / D)
    if name == 'seconds': return it.mk_int((us % D) / US)
    if name == 'microseconds': return it.mk_int(us % US)
    if name == 'total_seconds':
        def ts(i, a, k):
            if i.p.must(us % US == 0) : return i.mk_real(z3.ToReal(us / US))
            return i.mk_real(z3.ToReal(us) / US)
        return N(ts)
    if not hasattr(timedelta, name): return MISSING
    raise Unsupported(f"timedelta.{name}")


def dt_attr(it, o, name):
    if isinstance(o, datetime) and name not in ('astimezone', 'strftime', 'isoformat', 'replace', 'timestamp'):
        return getattr(o, name, MISSING)
    if name == 'tzinfo':
        return timezone.utc if dt_aware(o) else None
    if name == 'astimezone':
        def ast_(i, a, k):
            if isinstance(o, datetime) and o.tzinfo is not None and a: return o.astimezone(*a)
            if not a and not k: raise Unsupported("astimezone() to local time")
            if a[0] is not timezone.utc: raise Unsupported("astimezone to another zone")
            if dt_aware(o): return o
            return i.mk_dt(dt_us(o) - i.w.local_offset(i), True)
        return N(ast_)
    if isinstance(o, datetime) and name in ('strftime', 'isoformat', 'timestamp', 'replace'):
        def call(i, a, k):
            if not (fully_concrete(a) and fully_concrete(k)): raise Unsupported("datetime method")
            try: return getattr(o, name)(*a, **k)
            except Exception as e:
                from .interp import native_exc
                raise native_exc(e)
        return N(call)
    if name == 'strftime':
        return N(lambda i, a, k: i.w.sym_strftime(i, o, a[0]))
    if name == 'isoformat':
        return N(lambda i, a, k: SFmt([('iso', o)]))
    if name == 'timestamp':
        return N(lambda i, a, k: i.mk_real(z3.ToReal(dt_us(o)) / US))
    if name == 'replace':
        def rep(i, a, k):
            if a or set(k) - {'tzinfo', 'microsecond', 'second', 'minute'}: raise Unsupported("datetime.replace")
            us, aware = o.us, o.aware
            if 'tzinfo' in k:
                if k['tzinfo'] is None: aware = False
                elif k['tzinfo'] is timezone.utc: aware = True
                else: raise Unsupported("replace tzinfo")
            if 'microsecond' in k:
                us = us - us % US + (k['microsecond'] if isinstance(k['microsecond'], int) else k['microsecond'].t)
            if 'second' in k or 'minute' in k: raise Unsupported("replace second")
            return i.mk_dt(us, aware)
        return N(rep)
    if not hasattr(datetime, name): return MISSING
    return it.w.sym_dt_field(it, o, name)


def list_attr(it, o, name):
    if not hasattr(list, name): return MISSING

    def need_concrete():
        if not o.concrete: raise Unsupported(f"list.{name} on a symbolic list")

    def append(i, a, k): o.items.append(a[0])

    def extend(i, a, k): o.items.extend(i.listify(a[0]))

    def pop(i, a, k):
        if not o.concrete: return i.w.seq_pop(i, o, a)
        if not o.items: i.raise_(IndexError, "pop from empty list")
        idx = i.force(a[0]) if a else -1
        if isinstance(idx, SInt): idx = i.conc_int(idx, -len(o.items), len(o.items))
        if not isinstance(idx, int): i.raise_(TypeError, "an integer is required")
        try: return o.items.pop(idx)
        except IndexError: i.raise_(IndexError, "pop index out of range")

    def find(i, x):
        for n, y in enumerate(o.items):
            if i.decide(i.is_or_eq(y, x)): return n
        return None

    def index(i, a, k):
        if not o.concrete: return i.w.seq_find_index(i, o, a)
        if len(a) > 1: raise Unsupported("list.index with bounds")
        n = find(i, a[0])
        if n is None: i.raise_(ValueError, "x is not in list")
        return n

    def remove(i, a, k):
        if not o.concrete: return i.w.seq_remove(i, o, a)
        n = find(i, a[0])
        if n is None: i.raise_(ValueError, "list.remove(x): x not in list")
        del o.items[n]

    def insert(i, a, k):
        idx = i.force(a[0])
        if not isinstance(idx, int): raise Unsupported("insert at a symbolic index")
        if not o.concrete:
            if idx != 0: raise Unsupported("insert into a symbolic list")
        o.items.insert(idx, a[1])

    def sort(i, a, k):
        rev = i.truth(k.get('reverse', False))
        if not o.concrete:
            o.items = i.w.seq_sorted(i, o.items, k.get('key'), rev).items
            return None
        o.items = stable_sort(i, o.items, k.get('key'), rev)

    def count(i, a, k):
        need_concrete()
        n = 0
        for y in o.items:
            if i.decide(i.is_or_eq(y, a[0])): n += 1
        return n

    def clear(i, a, k): o.items = []
    def copy_(i, a, k): return HList(i.p, o.items)

    def reverse(i, a, k):
        need_concrete()
        o.items = o.items[::-1]

    t = {'append': append, 'extend': extend, 'pop': pop, 'index': index, 'remove': remove, 'insert': insert,
         'sort': sort, 'count': count, 'clear': clear, 'copy': copy_, 'reverse': reverse}
    if name in t: return N(t[name], name)
    raise Unsupported(f"list.{name}")


def dict_attr(it, o, name):
    if not hasattr(o.cls, name) and not hasattr(dict, name): return MISSING

    def get(i, a, k):
        e = i.dict_find(o, i.force(a[0]))
        if e is None: return a[1] if len(a) > 1 else k.get('default')
        return e.value

    def items(i, a, k): return GenVal(i.iter_dict(o, lambda e: (e.key, e.value)))
    def keys(i, a, k): return GenVal(i.iter_dict(o, lambda e: e.key))
    def values(i, a, k): return GenVal(i.iter_dict(o, lambda e: e.value))

    def pop(i, a, k):
        e = i.dict_find(o, i.force(a[0]))
        if e is None:
            if len(a) > 1: return a[1]
            i.raise_(KeyError, a[0])
        return i.dict_del(o, i.force(a[0]))

    def setdefault(i, a, k):
        e = i.dict_find(o, i.force(a[0]))
        if e is None:
            v = a[1] if len(a) > 1 else None
            i.dict_set(o, i.force(a[0]), v)
            return v
        return e.value

    def update(i, a, k):
        if a:
            d = i.lift(i.force(a[0]))
            if isinstance(d, HDict):
                for e in i.dict_ents(d): i.dict_set(o, e.key, e.value)
            else:
                for x in i.listify(d):
                    kk, vv = i.listify(x)
                    i.dict_set(o, kk, vv)
        for kk, vv in k.items(): i.dict_set(o, kk, vv)

    def copy_(i, a, k): return dict_copy(i, o)

    def clear(i, a, k):
        o.ents = []
        o.openf = None

    def popitem(i, a, k):
        es = i.dict_ents(o)
        if not es: i.raise_(KeyError, 'popitem(): dictionary is empty')
        e = es[0] if k.get('last') is False else es[-1]
        i.dict_del(o, e.key)
        return (e.key, e.value)

    def move_to_end(i, a, k):
        e = i.dict_find(o, i.force(a[0]))
        if e is None: i.raise_(KeyError, a[0])
        o.ents = [x for x in o.ents if x is not e]
        if k.get('last') is False: o.ents.insert(0, e)
        else: o.ents.append(e)

    t = {'get': get, 'items': items, 'keys': keys, 'values': values, 'pop': pop, 'setdefault': setdefault,
         'update': update, 'copy': copy_, 'clear': clear, 'popitem': popitem, 'move_to_end': move_to_end}
    if name in t: return N(t[name], name)
    if name == '__len__': return N(_len)
    raise Unsupported(f"dict.{name}")


def set_attr(it, o, name):
    if not hasattr(set, name): return MISSING

    def has(i, x): return i.decide(i.disj([i.eq(x, y) for y in o.items]))

    def add(i, a, k):
        x = i.check_hashable(a[0])
        if not has(i, x): o.items.append(x)

    def discard(i, a, k):
        for n, y in enumerate(o.items):
            if i.decide(i.eq(y, a[0])):
                del o.items[n]
                return

    def remove(i, a, k):
        for n, y in enumerate(o.items):
            if i.decide(i.eq(y, a[0])):
                del o.items[n]
                return
        i.raise_(KeyError, a[0])

    def update(i, a, k):
        for v in a:
            for x in i.listify(v): add(i, [x], {})

    t = {'add': add, 'discard': discard, 'remove': remove, 'update': update,
         'copy': lambda i, a, k: HSet(i.p, o.items),
         'union': lambda i, a, k: mk_set(i, o.items + i.listify(a[0])),
         'difference': lambda i, a, k: i.binop('Sub', o, mk_set(i, i.listify(a[0]))),
         'issubset': lambda i, a, k: i.mk_bool(i.conj([i.contains(a[0], x) for x in o.items])),
         'clear': lambda i, a, k: o.items.clear()}
    if name in t: return N(t[name], name)
    raise Unsupported(f"set.{name}")


_init()
