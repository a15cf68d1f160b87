"""Lists of symbolic length: indexing, loops, filters, sorts (see DESIGN.md)."""
import z3
from .values import *
from .path import *


class SeqMixin:
    def sym_list(self, name, n, sch): raise Unsupported("unbounded list")
    def seq_contains(self, it, c, x): raise Unsupported("in on a symbolic list")
    def seq_index(self, it, c, k): raise Unsupported("index of a symbolic list")
    def seq_slice(self, it, *a): raise Unsupported("slice of a symbolic list")
    def seq_setitem(self, it, *a): raise Unsupported("setitem of a symbolic list")
    def seq_enumerate(self, it, *a): raise Unsupported("enumerate of a symbolic list")
    def seq_sorted(self, it, *a): raise Unsupported("sort of a symbolic list")
    def seq_pop(self, it, *a): raise Unsupported("pop of a symbolic list")
    def seq_find_index(self, it, *a): raise Unsupported("index() of a symbolic list")
    def seq_remove(self, it, *a): raise Unsupported("remove() of a symbolic list")
    def seq_deepcopy(self, it, *a): raise Unsupported("deepcopy of a symbolic list")
    def seq_map(self, it, *a): raise Unsupported("map over a symbolic list")
    def sym_for(self, it, *a): raise Unsupported("loop over a symbolic list")
    def sym_comp(self, it, *a): return None
    def sym_anyall(self, it, *a): return None
    def sym_minmax(self, it, *a): raise Unsupported("min/max of a symbolic list")
    def sym_next(self, it, *a): return None
    def sym_range(self, it, vs): raise Unsupported("symbolic range")

    # contract-level quantification; concrete spines
    def seq_pick(self, it, name, xs):
        xs = it.force(xs)
        if not xs.concrete: raise Unsupported("pick")
        if not xs.items: raise Infeasible()
        return xs.items[self.choice(name, len(xs.items))]

    def seq_forall(self, it, xs, fn):
        xs = it.force(xs)
        cs = []
        for x in it.iterate(xs):
            if isinstance(x, SymSeg): raise Unsupported("forall")
            cs.append(it.truth_term(it.call(fn, [x], {})))
        return it.mk_bool(it.conj(cs))

    def seq_exists(self, it, xs, fn):
        xs = it.force(xs)
        cs = []
        for x in it.iterate(xs):
            if isinstance(x, SymSeg): raise Unsupported("exists")
            cs.append(it.truth_term(it.call(fn, [x], {})))
        return it.mk_bool(it.disj(cs))
