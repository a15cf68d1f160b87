"""Regular expressions on structured strings, calendar arithmetic.

A formatted string is a sequence of literal characters and decimal renderings of symbolic integers. The matcher is the
backtracking matcher of `re` on such sequences: a rendering of unknown width is taken whole by a digit repetition (which
is what greedy matching does); a path on which it would have to be split can only be used to show that there is no match.
Strings with unknown content (z3 strings) go to z3's regular expressions."""
import re
import re._parser as sre
import re._constants as C
from datetime import datetime, timedelta, timezone
import z3
from .values import *
from .path import *

DIG = set('0123456789')


# ------------------------------------------------------------------ tokens: ('c', ch) ('num', term, width|None) ('dig', min)
def tokens(it, v):
    out = []
    for x in it.fmt_norm(v):
        if isinstance(x, str): out += [('c', ch) for ch in x]
        elif isinstance(x, SInt):
            t = x.t
            if it.decide(t < 0):
                out.append(('c', '-'))
                t = -t
            out.append(('num', t, None))
        elif isinstance(x, tuple) and x[0] == 'fmt' and isinstance(x[1], SInt) and isinstance(x[2], str) \
                and re.fullmatch(r'0\d+d?', x[2]):
            w = int(x[2][1:].rstrip('d'))
            t = x[1].t
            if it.decide(t < 0): raise Unsupported("padded negative number")
            if it.decide(t < 10 ** w): out.append(('num', t, w))
            else: out.append(('num', t, None))
        elif isinstance(x, tuple) and x[0] == 'digits': out.append(('num', x[1].t, x[2]))
        elif isinstance(x, SAtom):
            from .intrinsics import atom_concretise
            out += [('c', ch) for ch in atom_concretise(it, x)]
        else: raise Unsupported(f"pattern matching on a string with unknown content {x}"[:200])
    return tuple(out)


def from_tokens(it, ts):
    parts = []
    for t in ts:
        if t[0] == 'c': parts.append(t[1])
        elif t[0] == 'num': parts.append(SInt(t[1]) if t[2] is None else ('digits', SInt(t[1]), t[2]))
        else: raise Unsupported("part of a number")
    return it.mk_fmt(parts)


def tokens_int(it, ts):
    """value of a digit token sequence, or None"""
    neg = False
    if ts and ts[0] in (('c', '-'), ('c', '+')):
        neg = ts[0][1] == '-'
        ts = ts[1:]
    if not ts: return None
    acc = None
    for t in ts:
        if t[0] == 'c':
            if t[1] not in DIG: return None
            v, w = z3.IntVal(int(t[1])), 1
        elif t[0] == 'num':
            v, w = t[1], t[2]
            if w is None and acc is not None and not (z3.is_int_value(acc) and acc.as_long() == 0): raise Unsupported("concatenated numbers")
        else: raise Unsupported("part of a number")
        if acc is None or w is None and z3.is_int_value(acc) and acc.as_long() == 0: acc = v
        else: acc = acc * 10 ** w + v
    return z3.simplify(-acc if neg else acc)


def fmt_int(it, v):
    ts = tokens(it, v)
    r = tokens_int(it, ts)
    if r is None: it.raise_(ValueError, "invalid literal for int() with base 10")
    return it.mk_int(r)


def fmt_float(it, v):
    ts = tokens(it, v)
    neg = bool(ts) and ts[0] == ('c', '-')
    if neg: ts = ts[1:]
    if ('c', '.') in ts:
        i = ts.index(('c', '.'))
        a, b = ts[:i], ts[i + 1:]
    else: a, b = ts, ()
    if not a and not b: it.raise_(ValueError, "could not convert string to float")
    def val(x):
        r = tokens_int(it, x)
        if r is None or x[0][0] == 'c' and x[0][1] not in DIG: it.raise_(ValueError, "could not convert string to float")
        return z3.ToReal(r)
    r = val(a) if a else z3.RealVal(0)
    if b:
        w = 0
        for t in b:
            if t[0] == 'c': w += 1
            elif t[2] is None: raise Unsupported("fraction of unknown width")
            else: w += t[2]
        r = r + val(b) / z3.RealVal(10 ** w)
    return it.mk_real(-r if neg else r)


def fmt_len(it, v):
    n = 0
    for x in it.fmt_norm(v):
        if isinstance(x, str): n += len(x)
        elif isinstance(x, tuple) and x[0] == 'digits': n += x[2]
        else:
            for t in tokens(it, SFmt([x])):
                if t[0] == 'c': n += 1
                elif t[2] is not None: n += t[2]
                else: n += num_width(it, t[1])
    return n


def num_width(it, t):
    for w in range(1, 19):
        if it.decide(t < 10 ** w): return w
    raise Unsupported("number too long")


# ------------------------------------------------------------------ the matcher
class M:
    def __init__(self, it, flags):
        self.it = it
        self.over = 0

    def char_ok(self, node, ch):
        op, av = node
        if op is C.LITERAL: return chr(av) == ch
        if op is C.NOT_LITERAL: return chr(av) != ch
        if op is C.ANY: return ch != '\n'
        if op is C.IN:
            neg, r = False, False
            for o, a in av:
                if o is C.NEGATE: neg = True
                elif o is C.LITERAL: r = r or chr(a) == ch
                elif o is C.RANGE: r = r or a[0] <= ord(ch) <= a[1]
                elif o is C.CATEGORY:
                    pat = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s',
                           C.CATEGORY_NOT_SPACE: r'\S', C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}[a]
                    r = r or bool(re.match(pat, ch))
                else: raise Unsupported("regex set")
            return r != neg
        return None

    def digits_ok(self, node):
        r = {self.char_ok(node, d) for d in DIG}
        if len(r) > 1: raise Unsupported("regex that distinguishes digits")
        return r.pop()

    def run(self, nodes, i, ts, caps, k):
        """nodes: list; k(i, ts, caps) continuation -> result or None"""
        if not nodes: return k(i, ts, caps)
        (op, av), rest = nodes[0], nodes[1:]
        cont = lambda i2, ts2, caps2: self.run(rest, i2, ts2, caps2, k)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            return self.one((op, av), i, ts, lambda i2, ts2: cont(i2, ts2, caps))
        if op is C.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele: raise Unsupported("regex flags")

            def close(i2, ts2, caps2):
                if g is not None: caps2 = {**caps2, g: (i, i2, ts2)}
                return cont(i2, ts2, caps2)
            return self.run(list(sub), i, ts, caps, close)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), i, ts, caps, cont)
                if r is not None: return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            return self.repeat(lo, hi, list(sub), i, ts, caps, cont, op is C.MIN_REPEAT)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return cont(i, ts, caps) if i == 0 else None
            if av in (C.AT_END, C.AT_END_STRING):
                end = self.at_end(i, ts)
                if not end and av is C.AT_END and i == len(ts) - 1 and ts[i] == ('c', '\n'): end = True
                return cont(i, ts, caps) if end else None
        raise Unsupported(f"regex {op}")

    def at_end(self, i, ts):
        return all(t == ('dig', 0) for t in ts[i:])

    def one(self, node, i, ts, k):
        """consume one character"""
        if i >= len(ts): return None
        t = ts[i]
        if t[0] == 'c':
            return k(i + 1, ts) if self.char_ok(node, t[1]) else None
        if t[0] == 'num':
            w = t[2]
            if not self.digits_ok(node): return None
            if w is None: w = num_width(self.it, t[1])
            if w == 1: return k(i + 1, ts[:i] + (('num', t[1], 1),) + ts[i + 1:])
            p = 10 ** (w - 1)
            return k(i + 1, ts[:i] + (('num', t[1] / p, 1), ('num', t[1] % p, w - 1)) + ts[i + 1:])
        # part of a number: over-approximate
        ok = self.digits_ok(node)
        if t[1] == 0:
            r = self.one(node, i, ts[:i] + ts[i + 1:], k)
            if r is not None: return r
        if not ok: return None
        return k(i + 1, ts[:i] + (('dig', 1), ('dig', 0)) + ts[i + 1:])

    def repeat(self, lo, hi, sub, i, ts, caps, k, lazy):
        single = len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)
        if single: return self.repeat1(lo, hi, sub[0], i, ts, caps, k, lazy)
        if hi is C.MAXREPEAT or hi > 8: hi = 8

        def go(n, i, ts, caps):
            def more():
                if n >= hi: return None
                return self.run(sub, i, ts, caps,
                                lambda i2, ts2, c2: go(n + 1, i2, ts2, c2) if i2 > i else None)

            def stop(): return k(i, ts, caps) if n >= lo else None
            for f in ((stop, more) if lazy else (more, stop)):
                r = f()
                if r is not None: return r
            return None
        return go(0, i, ts, caps)

    def repeat1(self, lo, hi, node, i, ts, caps, k, lazy):
        inf = hi is C.MAXREPEAT

        def go(n, i, ts):
            def more():
                if not inf and n >= hi or i >= len(ts): return None
                t = ts[i]
                if t[0] == 'num' and self.digits_ok(node):
                    w = t[2]
                    if w is None and not inf: w = num_width(self.it, t[1])
                    if w is None:
                        # the whole number; n counts at least one character
                        if lo > n + 1:
                            w = num_width(self.it, t[1])
                        else:
                            r = go(max(n + 1, lo), i + 1, ts)
                            if r is not None: return r
                            # part of it (only to show that nothing matches)
                            self.over += 1
                            try: r = k(i + 1, ts[:i] + (('dig', 1), ('dig', 1)) + ts[i + 1:], caps)
                            finally: self.over -= 1
                            if r is not None: raise Unsupported("match inside a number")
                            return None
                    if not inf and n + w > hi:
                        return self.one(node, i, ts, lambda i2, ts2: go(n + 1, i2, ts2))
                    r = go(n + w, i + 1, ts[:i] + (('num', t[1], w),) + ts[i + 1:])
                    if r is not None: return r
                    if w == 1: return None
                    # give back characters one by one
                    for j in range(w - 1, 0, -1):
                        if n + j < lo: break
                        p = 10 ** (w - j)
                        r = k(i + 1, ts[:i] + (('num', t[1] / p, j), ('num', t[1] % p, w - j)) + ts[i + 1:], caps)
                        if r is not None: return r
                    return None
                if t[0] == 'dig' and self.digits_ok(node):
                    # over-approximation: all of it, or a part
                    r = go(max(n + 1, lo), i + 1, ts)
                    if r is not None: return r
                    return k(i + 1, ts[:i] + (('dig', 1), ('dig', 0)) + ts[i + 1:], caps)
                return self.one(node, i, ts, lambda i2, ts2: go(n + 1, i2, ts2))

            def stop(): return k(i, ts, caps) if n >= lo else None
            for f in ((stop, more) if lazy else (more, stop)):
                r = f()
                if r is not None: return r
            return None
        if lazy and any(t[0] != 'c' for t in ts): raise Unsupported("lazy repetition over a number")
        return go(0, i, ts)


def match(it, pattern, how, s):
    if isinstance(s, SText): return match_text(it, pattern, how, s)
    ts = tokens(it, s)
    tree = sre.parse(pattern)
    ngroups = tree.state.groups
    m = M(it, 0)

    def done(i, ts2, caps):
        if how == 'fullmatch' and not m.at_end(i, ts2): return None
        if m.over: return (i, ts2, caps)
        return (i, ts2, caps)
    starts = [0] if how != 'search' else range(len(ts) + 1)
    for st in starts:
        if how == 'search' and st > 0 and st - 1 < len(ts) and ts[st - 1][0] != 'c':
            raise Unsupported("search behind a number")
        r = m.run(list(tree), st, ts, {}, done)
        if r is not None: break
    else: return None
    i, ts2, caps = r
    if any(t[0] == 'dig' for t in ts2): raise Unsupported("match inside a number")
    groups = [from_tokens(it, ts2[st:i])]
    for g in range(1, ngroups):
        if g not in caps: groups.append(None)
        else:
            a, b, _ = caps[g]
            groups.append(from_tokens(it, ts2[a:b]))
    return mk_match(it, groups, tree.state.groupdict)


def mk_match(it, groups, names):
    from . import lib
    return HInst(it.p, lib.Match, {'all': tuple(groups), 'names': HDict(it.p, [Ent(k, v) for k, v in names.items()])})


# ------------------------------------------------------------------ z3 regular expressions
def z3re(nodes):
    parts = [z3re1(n) for n in nodes]
    if not parts: return z3.Re('')
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


ANYC = None


def charset(op, av):
    full = z3.AllChar(z3.ReSort(z3.StringSort()))
    if op is C.LITERAL: return z3.Re(chr(av))
    if op is C.NOT_LITERAL: return z3.Intersect(full, z3.Complement(z3.Re(chr(av))))
    if op is C.ANY: return z3.Intersect(full, z3.Complement(z3.Re('\n')))
    alts, neg = [], False
    for o, a in av:
        if o is C.NEGATE: neg = True
        elif o is C.LITERAL: alts.append(z3.Re(chr(a)))
        elif o is C.RANGE: alts.append(z3.Range(chr(a[0]), chr(a[1])))
        elif o is C.CATEGORY and a is C.CATEGORY_DIGIT: alts.append(z3.Range('0', '9'))
        elif o is C.CATEGORY and a is C.CATEGORY_SPACE: alts += [z3.Re(c) for c in ' \t\n\r\f\v']
        else: raise Unsupported("regex set")
    r = alts[0] if len(alts) == 1 else z3.Union(*alts)
    return z3.Intersect(full, z3.Complement(r)) if neg else r


def z3re1(node):
    op, av = node
    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN): return charset(op, av)
    if op is C.SUBPATTERN: return z3re(list(av[3]))
    if op is C.BRANCH:
        xs = [z3re(list(a)) for a in av[1]]
        return z3.Union(*xs) if len(xs) > 1 else xs[0]
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        r = z3re(list(sub))
        if hi is C.MAXREPEAT:
            if lo == 0: return z3.Star(r)
            if lo == 1: return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if (lo, hi) == (0, 1): return z3.Option(r)
        return z3.Loop(r, lo, hi)
    raise Unsupported(f"regex {op} on an arbitrary string")


def in_re(pattern, how, t):
    tree = list(sre.parse(pattern))
    begin = end = False
    if tree and tree[0][0] is C.AT and tree[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING): tree, begin = tree[1:], True
    if tree and tree[-1][0] is C.AT and tree[-1][1] is C.AT_END_STRING: tree, end = tree[:-1], True
    elif tree and tree[-1][0] is C.AT and tree[-1][1] is C.AT_END:
        tree, end = tree[:-1] + list(sre.parse(r'\n?')), True
    if how == 'fullmatch': end = True
    if how != 'search': begin = True
    r = z3re(tree)
    anys = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
    if not begin: r = z3.Concat(anys, r)
    if not end: r = z3.Concat(r, anys)
    return z3.InRe(t, r)


def match_text(it, pattern, how, s):
    if not it.decide(in_re(pattern, how, s.t)): return None
    it.p.abstract = True
    tree = sre.parse(pattern)
    groups = []
    for g in range(tree.state.groups):
        if it.decide(it.p.fresh(z3.BoolSort(), 'group')): groups.append(None)
        else: groups.append(SText(it.p.fresh(z3.StringSort(), 'group')))
    return mk_match(it, groups, tree.state.groupdict)


# ------------------------------------------------------------------ the calendar
def days_from_civil(y, m, d):
    """days since 1970-01-01 of a proleptic Gregorian date (z3 Ints or ints)"""
    # days before the year and before the month, without nonlinear terms
    y1 = y - 1
    before = y1 * 365 + ediv(y1, 4) - ediv(y1, 100) + ediv(y1, 400)
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    mm = z3.IntVal(cum[11])
    for k in range(10, -1, -1): mm = z3.If(m == k + 1, z3.IntVal(cum[k]), mm)
    leap = z3.If(z3.And(m > 2, is_leap(y)), 1, 0)
    return before + mm + leap + d - 1 - 719162


def ediv(a, b): return a / b      # z3 Int division by a positive constant is floor


def is_leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def days_in_month(y, m):
    return z3.If(m == 2, z3.If(is_leap(y), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def _t(v):
    if isinstance(v, SInt): return v.t
    if isinstance(v, int): return z3.IntVal(v)
    raise Unsupported("datetime field")


CIVIL = {}


def civil(it, days):
    """the (year, month, day) of a day number: fresh, uniquely determined"""
    cache = it.w.__dict__.setdefault('civil_cache', {})
    for d0, r in cache.values():
        if d0.eq(days) or it.p.must(d0 == days): return r
    y, m, d = (it.p.fresh(z3.IntSort(), n) for n in ('year', 'month', 'day'))
    it.p.add(z3.And(y >= 1000, y <= 9999, m >= 1, m <= 12, d >= 1, d <= days_in_month(y, m),
                    days_from_civil(y, m, d) == days))
    cache[len(cache)] = (days, (y, m, d))
    return y, m, d


def sym_datetime(it, a, k):
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
    v = dict(zip(names, a))
    v.update(k)
    tz = v.pop('tzinfo', None)
    if tz not in (None, timezone.utc): raise Unsupported("datetime with a time zone")
    f = {n: _t(it.force(v.get(n, 0))) for n in names[:7]}
    y, m, d = f['year'], f['month'], f['day']
    ok = z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= days_in_month(y, m), f['hour'] >= 0, f['hour'] < 24,
                f['minute'] >= 0, f['minute'] < 60, f['second'] >= 0, f['second'] < 60,
                f['microsecond'] >= 0, f['microsecond'] < 1000000)
    if not it.decide(ok): it.raise_(ValueError, "day is out of range for month")
    days = None
    for d0, (cy, cm, cd) in it.w.__dict__.get('civil_cache', {}).values():
        if it.p.must(z3.And(cy == y, cm == m, cd == d)): days = d0
    if days is None: days = days_from_civil(y, m, d)
    us = ((days * 24 + f['hour']) * 60 + f['minute']) * 60 + f['second']
    return it.mk_dt(us * US + f['microsecond'], tz is not None)


def parts_of(it, o):
    us = dt_us(o)
    days = us / (86400 * US)
    rest = us % (86400 * US)
    return days, rest


def dt_field(it, o, name):
    days, rest = parts_of(it, o)
    if name in ('year', 'month', 'day'):
        return SInt(dict(zip(('year', 'month', 'day'), civil(it, days)))[name])
    r = {'hour': lambda: rest / (3600 * US), 'minute': lambda: rest / (60 * US) % 60, 'second': lambda: rest / US % 60,
         'microsecond': lambda: rest % US}
    if name in r: return it.mk_int(r[name]())
    raise Unsupported(f"datetime.{name}")


def sym_strftime(it, o, fmt):
    if not isinstance(fmt, str): raise Unsupported("strftime format")
    out = []
    i = 0
    F = {'Y': ('year', 4), 'm': ('month', 2), 'd': ('day', 2), 'H': ('hour', 2), 'M': ('minute', 2), 'S': ('second', 2),
         'f': ('microsecond', 6)}
    while i < len(fmt):
        if fmt[i] == '%':
            c = fmt[i + 1]
            i += 2
            if c == '%': out.append('%')
            elif c in F:
                n, w = F[c]
                out.append(('digits', dt_field(it, o, n), w))
            elif c == 'Z' or c == 'z':
                out.append('' if not dt_aware(o) else 'UTC' if c == 'Z' else '+0000')
            else: raise Unsupported(f"strftime %{c}")
        else:
            out.append(fmt[i])
            i += 1
    return it.mk_fmt(out)
