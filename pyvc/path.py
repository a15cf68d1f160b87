"""One symbolic execution path, re-executed from its decision prefix."""
import multiprocessing
import os
import pickle
import tempfile
import time
import z3
from .values import *


class Infeasible(Exception):
    pass


class Budget(Unsupported):
    pass


class MergeFail(BaseException):
    """A branch could not be executed without forking (falls back to forking)."""


class _Frame:
    __slots__ = ('prefix', 'taken', 'pending')
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pending = []


def _is_true(c): return c is True or z3.is_true(c)
def _is_false(c): return c is False or z3.is_false(c)


class Stats:
    def __init__(self): self.reset()

    def reset(self):
        self.checks = 0
        self.solver_s = 0.0
        self.unknown_feas = 0


class Path:
    def __init__(self, prefix, stats, deadline, feas_ms=1500, forker=None):
        self.forker = forker
        self.frames = [_Frame(prefix)]
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_ms)
        self.solver.set('random_seed', 1)
        self.pc = []
        self.heap = []
        self.stats = stats
        self.deadline = deadline
        self.names = {}
        self.iter_stack = []
        self.facts = []         # lazily evaluated fact generators
        self.abstract = False   # an over-approximation was used on this path
        self.nofork = 0

    # ------------------------------------------------------------ naming
    def fresh_name(self, hint):
        n = self.names.get(hint, 0)
        self.names[hint] = n + 1
        return f"{hint}!{n}"

    def fresh(self, sort, hint):
        name = self.fresh_name(hint)
        if not self.iter_stack:
            return z3.Const(name, sort)
        f = z3.Function(name, *[z3.IntSort()] * len(self.iter_stack), sort)
        return f(*self.iter_stack)

    # ------------------------------------------------------------ constraints
    def add(self, c):
        if _is_true(c):
            return
        if _is_false(c):
            raise Infeasible()
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra, ms=None):
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t = time.time()
        if ms:
            self.solver.set('timeout', ms)
        r = self.solver.check(*extra)
        if ms:
            self.solver.set('timeout', 1500)
        self.stats.checks += 1
        self.stats.solver_s += time.time() - t
        return r

    def decide(self, c):
        """Fork on a z3 Bool (or return a Python bool unchanged)."""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.nofork:
            if self.check(c) == z3.unsat: return False
            if self.check(z3.Not(c)) == z3.unsat: return True
            raise MergeFail()
        fr = self.frames[-1]
        k = len(fr.taken)
        if k < len(fr.prefix):
            b = fr.prefix[k]
            fr.taken.append(b)
            self.add(c if b else z3.Not(c))
            return b
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")
        rt = self.check(c)
        if rt == z3.unsat:
            b = False
        else:
            rf = self.check(z3.Not(c))
            if rf == z3.unsat:
                b = True
            else:
                if rt == z3.unknown or rf == z3.unknown:
                    self.stats.unknown_feas += 1
                if len(self.frames) == 1 and self.forker is not None:
                    b = self.forker.fork()
                else:
                    b = True
                    fr.pending.append(list(fr.taken) + [False])
        fr.taken.append(b)
        self.add(c if b else z3.Not(c))
        return b

    def must(self, c):
        """True only if c is implied by the path condition (no fork)."""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(z3.Not(c)) == z3.unsat

    def feasible(self, c=None):
        if c is None:
            return self.check() != z3.unsat
        if c is True or c is False:
            return c
        return self.check(c) != z3.unsat

    # ------------------------------------------------------------ heap
    def snapshot(self):
        return (len(self.heap), [(o, o.snap()) for o in self.heap])

    def restore(self, s):
        n, objs = s
        for o, sn in objs:
            o.restore(sn)
        del self.heap[n:]


TOKENS = multiprocessing.get_context('fork').Semaphore(int(os.environ.get('PYVC_JOBS', '7')))


class Forker:
    """Explores the paths of one contract: at a decision with two feasible outcomes the process is forked; the
    child takes the other outcome. At most 1 + (free tokens) processes run at a time."""
    def __init__(self, res, stats):
        self.res, self.stats = res, stats
        self.children = []
        self.root = True
        self.held = False
        self.dir = tempfile.mkdtemp(prefix='pyvc')
        self.crashed = None

    def fork(self):
        """True in the continuing process, False in the child"""
        tok = TOKENS.acquire(block=False)
        pid = os.fork()
        if pid == 0:
            self.root = False
            self.children = []
            self.held = tok
            self.res.reset()
            self.stats.reset()
            return False
        if tok: self.children.append(pid)
        else: self.wait(pid)
        return True

    def wait(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0: self.crashed = f"path process ended with status {st}"

    def finish(self):
        """wait for the children; a child process reports and ends here"""
        for pid in self.children: self.wait(pid)
        self.children = []
        if self.crashed and not self.res.unsupported: self.res.unsupported = self.crashed
        if not self.root:
            rc = 1
            try:
                with open(os.path.join(self.dir, f"{os.getpid()}"), 'wb') as f:
                    pickle.dump((self.res.export(), self.stats.__dict__), f)
                rc = 0
            finally:
                if self.held: TOKENS.release()
                os._exit(rc)

    def collect(self):
        for n in sorted(os.listdir(self.dir)):
            fn = os.path.join(self.dir, n)
            with open(fn, 'rb') as f: r, st = pickle.load(f)
            self.res.merge(r)
            for k, v in st.items(): setattr(self.stats, k, getattr(self.stats, k) + v)
            os.unlink(fn)
        os.rmdir(self.dir)
