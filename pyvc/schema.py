"""Input schemas: how an arbitrary value of a parameter is built, symbolically and by sampling."""
from datetime import datetime, timedelta, timezone
from collections import OrderedDict
import z3
from .values import *

H = 3600 * US
BASE_US = int((datetime(2026, 3, 1, 12, tzinfo=timezone.utc) - EPOCH) / timedelta(microseconds=1))
DT_LO = int((datetime(1990, 1, 1, tzinfo=timezone.utc) - EPOCH) / timedelta(microseconds=1))
DT_HI = int((datetime(2090, 1, 1, tzinfo=timezone.utc) - EPOCH) / timedelta(microseconds=1))


class Schema:
    pass


class Int(Schema):
    def __init__(self, lo=None, hi=None, pool=None): self.lo, self.hi, self.pool = lo, hi, pool

    def sym(self, w, name):
        t = w.leaf(name, z3.IntSort(), 'int')
        if self.lo is not None: w.p.add(t >= self.lo)
        if self.hi is not None: w.p.add(t <= self.hi)
        return SInt(t)

    def conc(self, w, name):
        def gen(r):
            if self.pool and r.random() < .6: return r.choice(self.pool)
            lo = self.lo if self.lo is not None else -3
            hi = self.hi if self.hi is not None else max(lo + 6, 5)
            c = [k for k in w.int_consts if (self.lo is None or k >= self.lo) and (self.hi is None or k <= self.hi)]
            if c and r.random() < .25: return r.choice(c)
            if hi - lo > 12 and r.random() < .7: return r.randint(lo, lo + 6)
            return r.randint(lo, hi)
        return w.leafv(name, gen)


class Real(Schema):
    def __init__(self, lo=None, hi=None, pool=None): self.lo, self.hi, self.pool = lo, hi, pool

    def sym(self, w, name):
        t = w.leaf(name, z3.RealSort(), 'real')
        if self.lo is not None: w.p.add(t >= self.lo)
        if self.hi is not None: w.p.add(t <= self.hi)
        return SReal(t)

    def conc(self, w, name):
        lo = -4 if self.lo is None else self.lo
        hi = 4 if self.hi is None else self.hi
        if self.pool: return w.leafv(name, lambda r: r.choice(self.pool))
        return float(w.leafv(name, lambda r: r.choice([x for x in (0.0, 1.0, -1.0, 0.5, 2.25, 3.0, float(lo), float(hi))
                                                       if lo <= x <= hi])))


class Bool(Schema):
    def sym(self, w, name): return SBool(w.leaf(name, z3.BoolSort(), 'bool'))
    def conc(self, w, name): return bool(w.leafv(name, lambda r: r.random() < .5))


def lookalike(r, s):
    k = r.randrange(10)
    if k == 0: return s.swapcase()
    if k == 1: return s + r.choice(['x', ' ', '0', '.'])
    if k == 2: return s[:-1]
    if k == 3: return r.choice(['x', ' ', '0']) + s
    if k == 4: return s.upper()
    if k == 5: return s.capitalize()
    if k == 6: return s[1:]
    if k == 7: return s + s
    if k == 8: return s[:r.randint(0, len(s))] + r.choice(['  ', '-', '_', '.', '/']) + s[r.randint(0, len(s)):]
    return s[::-1]


class Id(Schema):
    """A string handled as an opaque identifier (non-empty unless empty=True)."""
    def __init__(self, pool=None, empty=False, avoid=()): self.pool, self.empty, self.avoid = pool, empty, avoid

    def sym(self, w, name):
        t = w.leaf(name, z3.IntSort(), 'atom')
        w.p.add(t >= 0)
        if not self.empty: w.p.add(t != intern(''))
        for a in self.avoid: w.p.add(t != intern(a))
        return SAtom(t)

    def conc(self, w, name):
        def gen(r):
            pool = list(self.pool or ['a', 'b', 'c'])
            if w.str_consts and r.random() < .12: pool = w.str_consts
            if self.empty and r.random() < .2: return ''
            if r.random() < .1:
                # a look-alike of a string that is around already
                seen = [v for v in w.log.values() if isinstance(v, str) and v] + pool + w.contract_consts
                s = lookalike(r, r.choice(seen))
                if s and s not in self.avoid: return s
            for _ in range(20):
                s = r.choice(pool)
                if s and s not in self.avoid: return s
            return 'zz'
        return w.leafv(name, gen)


class Text(Schema):
    """A string of arbitrary content (sampled as a concatenation of the given pieces)."""
    def __init__(self, pieces=('a', 'b', ' '), n=5): self.pieces, self.n = list(pieces), n

    def sym(self, w, name): return SText(w.leaf(name, z3.StringSort(), 'text'))

    def conc(self, w, name):
        return w.leafv(name, lambda r: ''.join(r.choice(self.pieces) for _ in range(r.randint(0, self.n))))


class Hex(Schema):
    """n lower-case hexadecimal digits"""
    def __init__(self, n): self.n = n

    def sym(self, w, name):
        t = w.leaf(name, z3.StringSort(), 'text')
        w.p.add(z3.Length(t) == self.n)
        w.p.add(z3.InRe(t, z3.Star(z3.Union(z3.Range('0', '9'), z3.Range('a', 'f')))))
        return SText(t)

    def conc(self, w, name):
        v = w.leafv(name, lambda r: ''.join(r.choice('0123456789abcdef') for _ in range(self.n)))
        return v if len(v) == self.n else '0' * self.n


class Enum(Schema):
    def __init__(self, *choices): self.choices = tuple(choices)

    def sym(self, w, name):
        if not all(isinstance(c, str) for c in self.choices):
            return OneOf(*[Const(c) for c in self.choices]).sym(w, name)
        t = w.leaf(name, z3.IntSort(), 'atom')
        w.p.add(z3.Or(*[t == intern(c) for c in self.choices]))
        return SAtom(t, self.choices)

    def conc(self, w, name):
        if not all(isinstance(c, str) for c in self.choices):
            return OneOf(*[Const(c) for c in self.choices]).conc(w, name)
        v = w.leafv(name, lambda r: r.choice(self.choices))
        return v if v in self.choices else self.choices[0]


class DT(Schema):
    def __init__(self, aware=True, whole=False): self.aware, self.whole = aware, whole

    def sym(self, w, name):
        t = w.leaf(name, z3.IntSort(), 'int')
        w.p.add(z3.And(t >= DT_LO, t <= DT_HI))
        if self.whole: w.p.add(t % US == 0)
        return SDT(t, self.aware)

    def conc(self, w, name):
        def gen(r):
            us = BASE_US + r.randint(-4, 4) * H
            if r.random() < .15: us += r.choice([-1, 1]) * (US if self.whole or r.random() < .5 else 1)
            return us
        us = w.leafv(name, gen)
        d = (EPOCH if self.aware else NEPOCH) + timedelta(microseconds=us)
        if self.aware:
            off = w.extra(name + '@tz', lambda r: r.choice([60, 330, -480]) if r.random() < .08 else 0)
            if off: d = d.astimezone(timezone(timedelta(minutes=off)))
        return d


class Dur(Schema):
    """timedelta between lo and hi seconds"""
    def __init__(self, lo=0, hi=400 * 86400, whole=False, pool=None):
        self.lo, self.hi, self.whole, self.pool = lo, hi, whole, pool

    def sym(self, w, name):
        t = w.leaf(name, z3.IntSort(), 'int')
        w.p.add(z3.And(t >= int(self.lo * US), t <= int(self.hi * US)))
        if self.whole: w.p.add(t % US == 0)
        return STD(t)

    def conc(self, w, name):
        def gen(r):
            if self.pool and r.random() < .7: return int(r.choice(self.pool) * US)
            for _ in range(30):
                us = r.randint(-3 if self.lo < 0 else 0, 4) * H
                if r.random() < .3: us += r.choice([-1, 1, 59, 60, 61, 86400, 90061]) * US
                elif r.random() < .1: us = r.choice([1, 2, 7, 30]) * 24 * H
                if not self.whole and r.random() < .1: us += r.choice([1, 500000])
                if self.lo * US <= us <= self.hi * US: return us
            return int(r.randint(int(self.lo), int(self.hi)) * US)
        return timedelta(microseconds=w.leafv(name, gen))


class Opaque(Schema):
    """An object nothing is known about."""
    def __init__(self, kind='obj', n=3): self.kind, self.n = kind, n

    def sym(self, w, name): return SOpq(w.leaf(name, z3.IntSort(), 'int'), self.kind)
    def conc(self, w, name): return w.sentinel(self.kind, w.leafv(name, lambda r: r.randint(0, self.n - 1)))


class Const(Schema):
    def __init__(self, v): self.v = v
    def sym(self, w, name): return w.it.lift(self.v)

    def conc(self, w, name):
        import copy
        return copy.deepcopy(self.v) if isinstance(self.v, (list, dict, set)) else self.v


class Make(Schema):
    """Value computed by contract text: fn(w, name)"""
    def __init__(self, fn): self.fn = fn
    def sym(self, w, name): return w.it.call(self.fn, [w, name], {})
    def conc(self, w, name): return self.fn(w, name)


class Opt(Schema):
    """None or the given schema"""
    def __init__(self, s, p=.5): self.s, self.p = s, p

    def sym(self, w, name):
        b = w.leaf(name + '?none', z3.BoolSort(), 'bool')
        return SUnion([(b, None), (None, self.s.sym(w, name))])

    def conc(self, w, name):
        if w.leafv(name + '?none', lambda r: r.random() >= self.p): return None
        return self.s.conc(w, name)


class OneOf(Schema):
    def __init__(self, *alts): self.alts = alts

    def sym(self, w, name):
        t = w.leaf(name + '|', z3.IntSort(), 'int')
        w.p.add(z3.And(t >= 0, t < len(self.alts)))
        # decide eagerly: alternatives may be heap objects
        for i, a in enumerate(self.alts[:-1]):
            if w.p.decide(t == i): return a.sym(w, name)
        return self.alts[-1].sym(w, name)

    def conc(self, w, name):
        i = w.leafv(name + '|', lambda r: r.randrange(len(self.alts)))
        return self.alts[i % len(self.alts)].conc(w, name)


class Maybe:
    """A dict key that may be absent."""
    def __init__(self, s, p=.5): self.s, self.p = s, p


class Dict(Schema):
    def __init__(self, fields=None, **kw):
        self.fields = dict(fields or {})
        self.fields.update(kw)

    def sym(self, w, name):
        d = HDict(w.p)
        for k, s in self.fields.items():
            n = f"{name}.{k}"
            if isinstance(s, Maybe):
                b = w.leaf(n + '?in', z3.BoolSort(), 'bool')
                d.ents.append(Ent(k, s.s.sym(w, n), b))
            else:
                d.ents.append(Ent(k, s.sym(w, n)))
        return d

    def conc(self, w, name):
        d = {}
        for k, s in self.fields.items():
            n = f"{name}.{k}"
            if isinstance(s, Maybe):
                if w.leafv(n + '?in', lambda r: r.random() < s.p): d[k] = s.s.conc(w, n)
            else:
                d[k] = s.conc(w, n)
        return d


class Obj(Schema):
    """An instance of a class with the given attribute values (its __init__ is not run)."""
    def __init__(self, cls, **fields): self.cls, self.fields = cls, fields

    def sym(self, w, name):
        return HInst(w.p, self.cls, {k: s.sym(w, f"{name}.{k}") for k, s in self.fields.items()})

    def conc(self, w, name):
        o = object.__new__(self.cls)
        for k, s in self.fields.items(): object.__setattr__(o, k, s.conc(w, f"{name}.{k}"))
        return o


class Tuple(Schema):
    def __init__(self, *s): self.s = s
    def sym(self, w, name): return tuple(x.sym(w, f"{name}.{i}") for i, x in enumerate(self.s))
    def conc(self, w, name): return tuple(x.conc(w, f"{name}.{i}") for i, x in enumerate(self.s))


class List(Schema):
    """A list of arbitrary length (bounded tier: at most `max`)."""
    def __init__(self, s, min=0, max=3): self.s, self.min, self.max = s, min, max

    def sym(self, w, name):
        n = w.leaf(name + '#', z3.IntSort(), 'int')
        w.p.add(n >= self.min)
        if w.unbounded and not getattr(self, 'fixed', False):
            w.res.symlists = True
            return w.sym_list(name, n, self.s)
        w.bounded.add(f"list {name}: length <= {self.max}")
        w.p.add(n <= self.max)
        k = self.min
        while k < self.max and not w.p.decide(n == k): k += 1
        return HList(w.p, [self.s.sym(w, f"{name}[{i}]") for i in range(k)])

    def conc(self, w, name):
        def gen(r):
            hi = self.max + (2 if r.random() < .1 else 0)
            return r.randint(self.min, hi)
        n = w.leafv(name + '#', gen)
        if n > 60: raise w.Skip("list too long to replay")
        return [self.s.conc(w, f"{name}[{i}]") for i in range(n)]


def FixedList(s, n):
    return Tuplish(s, n)


class Tuplish(Schema):
    """A list of exactly n elements."""
    def __init__(self, s, n): self.s, self.n = s, n
    def sym(self, w, name): return HList(w.p, [self.s.sym(w, f"{name}[{i}]") for i in range(self.n)])
    def conc(self, w, name): return [self.s.conc(w, f"{name}[{i}]") for i in range(self.n)]


class Map(Schema):
    """A dict with arbitrarily many keys drawn from `key` (a schema), values from `val`.
    Symbolically unbounded: keys are initialised when first looked up."""
    def __init__(self, key, val, keys=3): self.key, self.val, self.keys = key, val, keys

    def sym(self, w, name):
        base = []
        counter = [0]

        def openf(it, key):
            for k, present, value in base:
                q = it.eq(k, key)
                if q is False: continue
                if it.decide(q): return present, value
            i = counter[0]
            counter[0] += 1
            n = f"{name}{{{i}}}"
            b = w.leaf(n + '?in', z3.BoolSort(), 'bool')
            w.alias_key(n + '.key', key)
            v = self.val.sym(w, n)
            if isinstance(v, HObj): v.lazy_base = True
            base.append((key, b, v))
            return b, v
        return HDict(w.p, openf=openf)

    def conc(self, w, name):
        d = {}
        i = 0
        if w.has_leaf(f"{name}{{0}}?in"):
            while w.has_leaf(f"{name}{{{i}}}?in"):
                n = f"{name}{{{i}}}"
                if w.leafv(n + '?in', lambda r: True):
                    d[w.decode_key(n + '.key', self.key)] = self.val.conc(w, n)
                i += 1
            return d
        if w.replaying: return d
        k = w.rng.randint(0, self.keys)
        for j in range(k):
            key = self.key.conc(w, f"{name}{{r{j}}}.key")
            if key not in d: d[key] = self.val.conc(w, f"{name}{{r{j}}}")
        return d
