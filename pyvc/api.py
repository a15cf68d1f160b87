"""What contract modules import."""
from .schema import (Int, Real, Bool, Id, Text, Hex, Enum, DT, Dur, Opaque, Const, Make, Opt, OneOf, Maybe, Dict, Obj,
                     Tuple, List, FixedList, Map)
from .lib import AnyError, Outcome, Callback, FakeFuture


class Contract:
    def __init__(self, fn, props, targets, opts):
        self.fn, self.props, self.targets, self.opts = fn, props, targets, opts
        self.name = fn.__name__


REG = {}
FINDINGS = {}


def contract(*props, targets=(), **opts):
    """Register contract text: a function of one argument (the world)."""
    def deco(fn):
        assert fn.__name__ not in REG, f'two contracts are called {fn.__name__}'
        REG[fn.__name__] = Contract(fn, props, tuple(targets), opts)
        return fn
    return deco


def finding(fid, prop, what):
    """Register the witness of a known finding: a concrete function that returns True while the defect exists."""
    def deco(fn):
        FINDINGS[fid] = (prop, what, fn)
        return fn
    return deco
