"""Symbolic values and heap objects of the verifier.

Immutable values: ordinary Python concretes, or a `Sym` wrapping a z3 term.
Mutable values  : `HObj` subclasses (HList, HDict, HSet, HInst), registered with the
                  running path so that loop summarisation can snapshot/restore them.
"""
import z3
from datetime import datetime, timedelta, timezone

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
NEPOCH = datetime(1970, 1, 1)
US = 1000000


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a verdict)."""


class Sym:
    __slots__ = ()

    def __bool__(self):
        raise Unsupported("native truth test of a symbolic value")

    def __hash__(self):
        return id(self)


class SBool(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SBool({self.t})"


class SInt(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SInt({self.t})"


class SReal(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SReal({self.t})"


class SAtom(Sym):
    """A string of which only equality matters: an interned integer code."""
    __slots__ = ('t', 'choices')
    def __init__(self, t, choices=None): self.t = t; self.choices = choices
    def __repr__(self): return f"SAtom({self.t})"


class SText(Sym):
    """A string with content: a z3 String term."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SText({self.t})"


class SFmt(Sym):
    """A formatted string: literal parts and values (used through str())."""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = tuple(parts)
    def __repr__(self): return f"SFmt({self.parts})"


class SDT(Sym):
    """datetime as microseconds since the epoch; aware: in UTC; naive: in local time."""
    __slots__ = ('us', 'aware')
    def __init__(self, us, aware=True): self.us = us; self.aware = aware
    def __repr__(self): return f"SDT({self.us},{self.aware})"


class STD(Sym):
    __slots__ = ('us',)
    def __init__(self, us): self.us = us
    def __repr__(self): return f"STD({self.us})"


class SOpq(Sym):
    """An opaque object (identity only), truthy, not None."""
    __slots__ = ('t', 'kind')
    def __init__(self, t, kind='obj'): self.t = t; self.kind = kind
    def __repr__(self): return f"SOpq({self.kind}:{self.t})"


class SUnion(Sym):
    """Guarded alternatives; the first alternative whose guard holds is the value."""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return f"SUnion({self.alts})"


# ---------------------------------------------------------------- interning
_INTERN = {}
_REV = {}


def intern(s):
    c = _INTERN.get(s)
    if c is None:
        c = len(_INTERN) * 3 + 1
        _INTERN[s] = c
        _REV[c] = s
    return c


def unintern(c):
    s = _REV.get(c)
    if s is None:
        return f"s{c}" if c >= 0 else f"t{-c}"
    return s


intern('')


# ---------------------------------------------------------------- heap
class HObj:
    _n = 0

    def _reg(self, world):
        if world is not None:
            world.heap.append(self)

    def __bool__(self):
        raise Unsupported("native truth test of a heap object")


class SymSeg:
    """A segment of symbolic length inside a list.

    length : z3 Int (>= 0 assumed)
    elem(i): value at z3 Int index i (0 <= i < length is assumed by the caller)
    """
    def __init__(self, length, elem, origin=None):
        self.length = length
        self.elem = elem
        self.origin = origin or {}

    def __repr__(self): return f"SymSeg({self.length})"


class HList(HObj):
    def __init__(self, world, items=()):
        self.items = list(items)
        self._reg(world)

    def snap(self): return list(self.items)
    def restore(self, s): self.items = list(s)

    @property
    def concrete(self):
        return not any(isinstance(x, SymSeg) for x in self.items)

    def __repr__(self): return f"HList({self.items})"


class HSet(HObj):
    def __init__(self, world, items=()):
        self.items = list(items)
        self._reg(world)

    def snap(self): return list(self.items)
    def restore(self, s): self.items = list(s)
    def __repr__(self): return f"HSet({self.items})"


class Ent:
    __slots__ = ('key', 'value', 'present')
    def __init__(self, key, value, present=True):
        self.key = key; self.value = value; self.present = present
    def copy(self): return Ent(self.key, self.value, self.present)
    def __repr__(self): return f"{self.key}:{self.value}{'' if self.present is True else '?'}"


class HDict(HObj):
    """Entries in insertion order.  `openf(key)` -> (present z3 Bool, value) lazily initialises
    keys of an unbounded dict that have not been looked at yet (None: the dict is closed)."""
    def __init__(self, world, entries=(), openf=None, cls=dict, length=None):
        self.ents = list(entries)
        self.openf = openf
        self.cls = cls
        self.initial = []       # lazily initialised (key, present, value), for replay
        self.default_factory = None
        self._reg(world)

    def snap(self): return ([e.copy() for e in self.ents], self.openf)
    def restore(self, s):
        self.ents = [e.copy() for e in s[0]]; self.openf = s[1]

    def __repr__(self): return f"HDict({self.ents}{', open' if self.openf else ''})"


class HInst(HObj):
    def __init__(self, world, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self._reg(world)

    def snap(self): return dict(self.fields)
    def restore(self, s): self.fields = dict(s)
    def __repr__(self): return f"<{self.cls.__name__} {self.fields}>"


class FuncVal:
    def __init__(self, node, globs, env, name, cls=None, defaults=(), kwdefaults=None, qualname=None, real=None):
        self.node = node; self.globs = globs; self.env = env; self.name = name; self.cls = cls
        self.defaults = list(defaults); self.kwdefaults = dict(kwdefaults or {})
        self.qualname = qualname or name
        self.real = real
        self.attrs = {}

    def __repr__(self): return f"<func {self.qualname}>"


class BMethod:
    def __init__(self, self_, func):
        self.self_ = self_; self.func = func

    def __repr__(self): return f"<bound {self.func}>"


class NativeFn:
    def __init__(self, fn, name='native'):
        self.fn = fn; self.name = name

    def __repr__(self): return f"<native {self.name}>"


class CoroVal:
    def __init__(self, thunk, name=''):
        self.thunk = thunk; self.name = name; self.started = False


class GenVal:
    """A lazily evaluated iterator (generator expression, dict view, zip, ...)."""
    def __init__(self, it):
        self.it = it


class PyExc(Exception):
    """An exception raised by interpreted code."""
    def __init__(self, value):
        Exception.__init__(self)
        self.value = value      # HInst whose cls is an exception class

    @property
    def cls(self): return self.value.cls

    def __repr__(self): return f"PyExc({self.value.cls.__name__}, {self.value.fields.get('args')})"
    __str__ = __repr__


# ---------------------------------------------------------------- lifting
def dt_us(v):
    if isinstance(v, SDT):
        return v.us
    if v.tzinfo is None:
        return int((v - NEPOCH) / timedelta(microseconds=1))
    return int((v - EPOCH) / timedelta(microseconds=1))


def dt_aware(v):
    return v.aware if isinstance(v, SDT) else v.tzinfo is not None


def td_us(v):
    if isinstance(v, STD):
        return v.us
    return (v.days * 86400 + v.seconds) * US + v.microseconds


def is_sym(v):
    return isinstance(v, (Sym, HObj, FuncVal, BMethod, NativeFn, CoroVal, GenVal))


def is_num(v):
    return isinstance(v, (SInt, SReal, SBool, int, float))


def is_strlike(v):
    return isinstance(v, (str, SAtom, SText, SFmt))


def fully_concrete(v, depth=0):
    if isinstance(v, (Sym, HObj, FuncVal, BMethod, NativeFn, CoroVal, GenVal, SymSeg)):
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(fully_concrete(x) for x in v)
    if isinstance(v, dict):
        return all(fully_concrete(k) and fully_concrete(x) for k, x in v.items())
    return True
