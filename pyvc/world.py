"""The contract-facing API, in its symbolic (proof) and concrete (replay / sampling) forms."""
import asyncio
import importlib
import random
import sys
import time
import types
import uuid
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import z3
from .values import *
from .path import *
from .interp import Interp, MISSING, native_exc, interpretable
from . import intrinsics, lib, schema


def resolve(dotted):
    """'pkg.mod.Class.attr' -> (owner, name, object)"""
    parts = dotted.split('.')
    for k in range(len(parts) - 1, 0, -1):
        try:
            m = importlib.import_module('.'.join(parts[:k]))
        except ImportError:
            continue
        o, owner = m, None
        for p in parts[k:]:
            owner = o
            if isinstance(o, type):
                o = next((c.__dict__[p] for c in o.__mro__ if p in c.__dict__), MISSING)
                if o is MISSING: raise AttributeError(dotted)
                if isinstance(o, (staticmethod, classmethod)): o = o.__func__
            else:
                o = getattr(o, p)
        return owner, parts[-1], o
    raise AttributeError(dotted)


class Failure:
    def __init__(self, label, kind, assign, info, abstract, path_len):
        self.label, self.kind, self.assign, self.info = label, kind, assign, info
        self.abstract, self.path_len = abstract, path_len


class SymResult:
    SETS = ('covers', 'touched', 'stubs', 'assumed', 'bounded', 'lib')

    def __init__(self):
        self.covers = set()
        self.touched = set()
        self.stubs = set()
        self.assumed = set()
        self.bounded = set()
        self.lib = set()
        self.merge_failed = set()
        self.symlists = False
        self.unsupported = None
        self.reset()

    def reset(self):
        """forget what has been counted (the sets stay: merging them is idempotent)"""
        self.obl = {}
        self.failures = []
        self.paths = 0
        self.completed_paths = 0
        self.backend = {}

    def rec(self, label):
        return self.obl.setdefault(label, {'n': 0, 'discharged': 0, 'unknown': 0, 'failed': 0})

    def export(self):
        d = {k: getattr(self, k) for k in self.SETS}
        d.update(obl=self.obl, failures=self.failures, paths=self.paths, completed_paths=self.completed_paths,
                 backend=self.backend, symlists=self.symlists, unsupported=self.unsupported)
        return d

    def merge(self, d):
        for k in self.SETS: getattr(self, k).update(d[k])
        for l, o in d['obl'].items():
            r = self.rec(l)
            for k, v in o.items(): r[k] += v
        seen = {}
        for f in self.failures: seen[f.label] = seen.get(f.label, 0) + 1
        for f in d['failures']:
            seen[f.label] = seen.get(f.label, 0) + 1
            if seen[f.label] <= 12: self.failures.append(f)
        self.paths += d['paths']
        self.completed_paths += d['completed_paths']
        for k, v in d['backend'].items(): self.backend[k] = self.backend.get(k, 0) + v
        self.symlists = self.symlists or d['symlists']
        if d['unsupported'] and not self.unsupported: self.unsupported = d['unsupported']


class SymWorld:
    symbolic = True
    Skip = Infeasible
    Schema = (schema.Schema, schema.Maybe)

    def __init__(self, path, result, roots, opts):
        self.p = path
        self.res = result
        self.touched = result.touched
        self.roots = roots
        self.opts = opts
        self.max_unroll = opts.get('max_unroll', 12)
        self.unbounded = opts.get('unbounded', False)
        self.bounded = result.bounded
        self.leaves = {}
        self.keyalias = {}
        self.stubs = {}
        self.overrides = {}
        self.class_sets = 0
        self.iso_types = {}
        self.clock_last = None
        self.clock_n = 0
        self.frozen = None
        self.ids = 0
        self.trace = []
        self._lo = None
        self.it = Interp(self, path, roots)
        self.merge_failed = result.merge_failed

    # ------------------------------------------------------------ engine hooks
    def merge_state(self):
        return (self.clock_n, self.ids, len(self.trace), self.clock_last is None, sum(o['n'] for o in self.res.obl.values()),
                len(self.overrides), self.class_sets)

    def merge_restore(self, st):
        if st[0] != self.clock_n: self.clock_n = st[0]
        self.ids = st[1]
        del self.trace[st[2]:]
        if st[3]: self.clock_last = None

    def is_world(self, o): return o is self
    def record(self, name, a, k): self.trace.append((name, a, k))

    def stub_for(self, f):
        try: r = self.stubs.get(id(f))
        except Exception: return None
        if r is None: return None
        obj, repl, guard = r
        if guard[0]: return None
        self.res.stubs.add(getattr(f, '__qualname__', str(f)))

        def run(it, a, k):
            if isinstance(repl, FuncVal):
                try: it.bind_args(repl, a, k)
                except PyExc:
                    # the callee's interface has changed: use the real callee
                    guard[0] = True
                    try:
                        r = it.call(f, a, k)
                        return it.await_(r) if isinstance(r, CoroVal) and False else r
                    finally: guard[0] = False
            return it.call(repl, a, k)
        return run

    def set_class_attr(self, cls, name, value):
        self.overrides[(id(cls), name)] = value
        self.class_sets += 1

    def attr_override(self, obj, name):
        try: return self.overrides.get((id(obj), name), MISSING)
        except Exception: return MISSING

    def global_override(self, globs, name):
        return self.overrides.get((id(globs), name), MISSING)

    def call_opaque(self, it, f, a, k): raise Unsupported("call of an opaque callable")
    def opaque_attr(self, it, o, name): raise Unsupported(f"attribute {name} of an opaque value")

    def signature_of(self, it, f):
        if isinstance(f, BMethod):
            names = self.signature_of(it, f.func)
            return names[1:]
        if isinstance(f, FuncVal):
            a = f.node.args
            r = [x.arg for x in a.posonlyargs + a.args]
            if a.vararg: r.append(a.vararg.arg)
            r += [x.arg for x in a.kwonlyargs]
            if a.kwarg: r.append(a.kwarg.arg)
            return r
        if isinstance(f, types.FunctionType):
            return self.signature_of(it, it.real_func(f))
        if isinstance(f, HInst) and 'verif_signature' in f.fields:
            return list(it.listify(f.fields['verif_signature']))
        raise Unsupported("signature")

    def next_now(self, it):
        if self.frozen is not None: return self.frozen
        k = self.clock_n
        self.clock_n += 1
        t = self.leaf(f"now{k}", z3.IntSort(), 'int')
        self.p.add(z3.And(t >= schema.DT_LO, t <= schema.DT_HI))
        if self.clock_last is not None: self.p.add(t >= self.clock_last)
        self.clock_last = t
        return t

    def local_offset(self, it):
        if self._lo is None:
            self._lo = 0        # assumption: the system time zone is UTC
        return self._lo

    def fresh_id(self, it):
        self.ids += 1
        if self.p.iter_stack:
            t = self.p.fresh(z3.IntSort(), 'genid')
            self.p.add(t < -1000000)
            return SAtom(t)
        return SAtom(z3.IntVal(-self.ids))

    def sym_datetime(self, it, a, k):
        from . import rx
        return rx.sym_datetime(it, a, k)

    def sym_strftime(self, it, o, fmt):
        from . import rx
        return rx.sym_strftime(it, o, fmt)

    def sym_dt_field(self, it, o, name):
        from . import rx
        return rx.dt_field(it, o, name)

    # sequence hooks are mixed in from seq.py

    # ------------------------------------------------------------ leaves
    def leaf(self, name, sort, kind):
        if self.p.iter_stack:
            f = z3.Function(name, *[z3.IntSort()] * len(self.p.iter_stack), sort)
            t = f(*self.p.iter_stack)
            self.leaves.setdefault(name, (kind + '@', f))
            return t
        t = z3.Const(name, sort)
        self.leaves[name] = (kind, t)
        return t

    def alias_key(self, name, key):
        self.keyalias[name] = key

    def decode_val(self, m, kind, t):
        v = m.eval(t, model_completion=True)
        if kind == 'int': return v.as_long()
        if kind == 'bool': return z3.is_true(v)
        if kind == 'atom': return self.decode_atom(v.as_long())
        if kind == 'real': return float(Fraction(v.numerator_as_long(), v.denominator_as_long())) \
            if z3.is_rational_value(v) else float(v.approx(10).as_fraction())
        if kind == 'text': return z3_str(v)
        raise ValueError(kind)

    @staticmethod
    def decode_atom(c):
        if -1000000 <= c < 0: return f"uuid-{-c}"
        return unintern(c)

    def decode_key(self, m, k):
        if isinstance(k, SAtom): return self.decode_atom(m.eval(k.t, model_completion=True).as_long())
        if isinstance(k, SInt): return m.eval(k.t, model_completion=True).as_long()
        if isinstance(k, tuple): return tuple(self.decode_key(m, x) for x in k)
        if isinstance(k, SText): return z3_str(m.eval(k.t, model_completion=True))
        return k

    def assignment(self, m):
        out = {}
        for name, (kind, t) in self.leaves.items():
            if kind.endswith('@'): continue
            try: out[name] = self.decode_val(m, kind, t)
            except Exception: pass
        for name, k in self.keyalias.items():
            try: out[name] = self.decode_key(m, k)
            except Exception: pass
        for name, fn in getattr(self, 'seg_leaves', {}).items():
            try: out.update(fn(m))
            except Exception: pass
        return out

    # ------------------------------------------------------------ contract API
    def make(self, name, sch):
        return sch.sym(self, name)

    def flag(self, name):
        return SBool(self.leaf(self.p.fresh_name(name) if name in self.leaves else name, z3.BoolSort(), 'bool'))

    def assume(self, c):
        t = self.it.truth_term(c)
        if t is False: raise Infeasible()
        if t is not True:
            self.p.add(t)
            if self.p.check() == z3.unsat: raise Infeasible()

    def _neg_sat(self, t):
        """unsat / (sat, model) / unknown for not t under the path condition"""
        neg = z3.BoolVal(True) if t is False else z3.Not(t)
        ms = self.opts.get('obl_ms', 10000)
        r = self.p.check(neg, ms=ms)
        if r == z3.unsat: return 'unsat', None, 'z3'
        if r == z3.sat: return 'sat', self.p.solver.model(), 'z3'
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*self.p.pc)
        s.add(neg)
        t0 = time.time()
        r = s.check()
        self.p.stats.solver_s += time.time() - t0
        if r == z3.unsat: return 'unsat', None, 'z3'
        if r == z3.sat: return 'sat', s.model(), 'z3'
        r = cvc5_check(s.to_smt2(), ms)
        if r == 'unsat': return 'unsat', None, 'cvc5'
        return 'unknown', None, ''

    def check(self, label, c):
        t = self.it.truth_term(c)
        rec = self.res.rec(label)
        rec['n'] += 1
        if t is True:
            rec['discharged'] += 1
            self.res.backend['path'] = self.res.backend.get('path', 0) + 1
            return
        r, m, be = self._neg_sat(t)
        if r == 'unsat':
            rec['discharged'] += 1
            self.res.backend[be] = self.res.backend.get(be, 0) + 1
        elif r == 'sat':
            rec['failed'] += 1
            if sum(1 for f in self.res.failures if f.label == label) < 6:
                self.res.failures.append(Failure(label, 'postcondition', self.assignment(m), str(t)[:300],
                                                 self.p.abstract, len(self.p.pc)))
        else:
            rec['unknown'] += 1
        if t is False: raise Infeasible()
        self.p.add(t)

    def cover(self, label):
        self.res.covers.add(label)

    def _run(self, fn, a, k):
        r = self.it.call(fn, list(a), dict(k))
        r = self.it.force(r)
        if isinstance(r, CoroVal): r = self.it.await_(r)
        return r

    def resolve(self, fn):
        if isinstance(fn, str):
            return resolve(fn)[2]
        return fn

    def call(self, fn, *a, **k):
        fn = self.resolve(fn)
        label = f"{self.fname(fn)} raises nothing"
        rec = self.res.rec(label)
        rec['n'] += 1
        try:
            r = self._run(fn, a, k)
        except PyExc as e:
            rs, m, be = self._neg_sat(False)
            if rs == 'sat':
                rec['failed'] += 1
                if sum(1 for f in self.res.failures if f.label == label) < 6:
                    self.res.failures.append(Failure(label, 'exception', self.assignment(m), repr(e)[:300],
                                                     self.p.abstract, len(self.p.pc)))
            elif rs == 'unsat': rec['discharged'] += 1
            else: rec['unknown'] += 1
            raise Infeasible()
        rec['discharged'] += 1
        self.res.backend['path'] = self.res.backend.get('path', 0) + 1
        return r

    def try_call(self, fn, *a, **k):
        fn = self.resolve(fn)
        try:
            r = self._run(fn, a, k)
        except PyExc as e:
            return HInst(self.p, lib.Outcome, {'raised': e.cls, 'exc': e.value, 'value': None})
        return HInst(self.p, lib.Outcome, {'raised': None, 'exc': None, 'value': r})

    @staticmethod
    def fname(fn):
        if isinstance(fn, BMethod): fn = fn.func
        return getattr(fn, '__qualname__', None) or getattr(fn, 'qualname', None) or str(fn)

    def stub(self, target, repl):
        owner, name, obj = resolve(target)
        if isinstance(obj, types.MethodType): obj = obj.__func__
        self.stubs[id(obj)] = (obj, repl, [False])

    def modular(self, target, spec):
        """Use the callee's specification instead of its body (in proofs only: concrete runs use the real callee)."""
        try: self.stub(target, spec)
        except AttributeError: pass

    def patch(self, target, value):
        owner, name, obj = resolve(target)
        self.overrides[(id(owner), name)] = value
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').split('.')[0] == 'openleadr':
                for k, v in list(vars(m).items()):
                    if v is obj:
                        self.overrides[(id(m), k)] = value
                        self.overrides[(id(vars(m)), k)] = value

    def cb(self, name, ret=None, mode='either', effect=None, fn=None, raises=None, signature=None):
        r = self.it.call(lib.Callback, [self, name], dict(ret=ret, mode=mode, effect=effect, fn=fn, raises=raises))
        if signature is not None: r.fields['verif_signature'] = signature
        return r

    def new(self, cls, **fields):
        return HInst(self.p, cls, fields)

    def freeze(self):
        t = self.leaf('now', z3.IntSort(), 'int')
        self.p.add(z3.And(t >= schema.DT_LO, t <= schema.DT_HI))
        self.frozen = t
        return SDT(t, True)

    def ite(self, c, a, b):
        t = self.it.truth_term(c)
        if t is True: return a
        if t is False: return b
        m = intrinsics.merge(self.it, t, a, b)
        if m is not None: return m
        return SUnion([(t, a), (None, b)])

    def all_(self, *cs):
        return self.it.mk_bool(self.it.conj([self.it.truth_term(c) for c in cs]))

    def any_(self, *cs):
        return self.it.mk_bool(self.it.disj([self.it.truth_term(c) for c in cs]))

    def not_(self, c):
        t = self.it.truth_term(c)
        return (not t) if isinstance(t, bool) else self.it.mk_bool(z3.Not(t))

    def implies(self, a, b): return self.any_(self.not_(a), b)

    def iff(self, a, b):
        x, y = self.it.truth_term(a), self.it.truth_term(b)
        if isinstance(x, bool): x = z3.BoolVal(x)
        if isinstance(y, bool): y = z3.BoolVal(y)
        return self.it.mk_bool(x == y)

    def same(self, a, b):
        return self.it.mk_bool(self.it.is_(a, b))

    def eq(self, a, b):
        return self.it.mk_bool(self.it.eq(a, b))

    def is_async(self): return None

    def choice(self, name, n):
        """an arbitrary int in range(n), as a Python int"""
        t = self.leaf(name, z3.IntSort(), 'int')
        self.p.add(z3.And(t >= 0, t < n))
        for i in range(n - 1):
            if self.p.decide(t == i): return i
        return n - 1

    def size(self, name, n, deep=None, big=0):
        """an arbitrary list length in range(n): a bound of the proof (deep: in the thorough tier; big: now and then in
        concrete runs)"""
        if deep is not None and self.opts.get('tier') == 'thorough': n = deep
        self.bounded.add(f"{name} < {n}")
        return self.choice(name, n)

    def deepcopy(self, v):
        return intrinsics.deep(self.it, v, {})

    def dt_text(self, name, ts):
        """the wire form of a datetime: an opaque token in proofs (see parser_of), the real text in concrete runs"""
        return SAtom(z3.IntVal(intern('$' + name)))

    def parser_of(self, tok, ts):
        def run(it, a, k):
            it.raise_(ValueError, 'malformed') if not it.decide(it.eq(a[0], tok)) else None
            return ts
        return NativeFn(run)

    def returns(self, v):
        """a function of any arguments that returns v"""
        return NativeFn(lambda it, a, k: v)

    def text(self, v):
        """the str() of a value"""
        return self.it.call(str, [v], {})

    def events(self, name):
        """recorded library calls"""
        return HList(self.p, [(HList(self.p, a), HDict(self.p, [Ent(x, y) for x, y in k.items()]))
                              for n, a, k in self.trace if n == name])

    def pick(self, name, xs):
        """an arbitrary element of a list (assumes it is not empty)"""
        return self.seq_pick(self.it, name, xs)

    def forall(self, xs, fn):
        return self.seq_forall(self.it, xs, fn)

    def exists(self, xs, fn):
        return self.seq_exists(self.it, xs, fn)


def z3_str(v):
    s = v.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def cvc5_check(smt2, ms):
    try:
        import cvc5
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(ms))
        slv.setOption('strings-exp', 'true')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + smt2, 'x')
        sm = p.getSymbolManager()
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = c.invoke(slv, sm)
            if o: out += o
        return out.strip().split('\n')[-1]
    except Exception as e:
        return 'unknown'


from .seq import SeqMixin  # noqa: E402


SymWorld = type('SymWorld', (SeqMixin, SymWorld), {})


# ====================================================================== concrete
class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


class SkipCase(Exception):
    pass


class _Sentinel:
    def __init__(self, kind, code): self.kind, self.code = kind, code
    def __repr__(self): return f"<{self.kind} {self.code}>"
    def __deepcopy__(self, memo): return self


class _DTMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, datetime)
    def __subclasscheck__(cls, x): return issubclass(x, datetime)
    def __eq__(cls, o): return o is datetime or o is cls or type.__eq__(cls, o) is True
    def __hash__(cls): return hash(datetime)


class ConcWorld:
    symbolic = False
    Skip = SkipCase

    def __init__(self, assign, rng, opts, str_consts=(), int_consts=(), contract_consts=(), perturb=False):
        self.contract_consts = list(contract_consts)
        self.perturb = perturb
        self.assign = assign
        self.replaying = assign is not None
        self.rng = rng
        self.opts = opts
        self.str_consts = list(str_consts)
        self.int_consts = list(int_consts)
        self.log = {}
        self.undo = []
        self.sent = {}
        self.clock_n = 0
        self.clock_last = None
        self.frozen = None
        self.ids = 0
        self.failed = []
        self.checks = 0
        self.seen = {}
        self.recs = []
        self.covers = set()
        self.loop = None
        self.unbounded = False
        self._install_clock()

    # ------------------------------------------------------------ leaves
    def has_leaf(self, name): return self.assign is not None and name in self.assign

    def leafv(self, name, gen):
        if self.assign is not None and name in self.assign: v = self.assign[name]
        else: v = gen(self.rng)
        self.log[name] = v
        return v

    def extra(self, name, gen):
        """a concrete refinement of a value that the symbolic world does not distinguish"""
        if self.assign is not None and name not in self.assign and not self.perturb: return 0
        return self.leafv(name, gen)

    def decode_key(self, name, sch):
        if self.assign is not None and name in self.assign:
            k = self.assign[name]
            return tuple(k) if isinstance(k, list) else k
        return sch.conc(self, name)

    def sentinel(self, kind, code):
        k = (kind, code)
        if k not in self.sent: self.sent[k] = _Sentinel(kind, code)
        return self.sent[k]

    # ------------------------------------------------------------ clock, ids
    def _install_clock(self):
        w = self

        class FakeDT(datetime, metaclass=_DTMeta):
            @classmethod
            def now(cls, tz=None):
                d = w.tick()
                return d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)

            @classmethod
            def utcnow(cls):
                return w.tick().replace(tzinfo=None)

            def __new__(cls, *a, **k):
                return datetime(*a, **k)

            @classmethod
            def fromtimestamp(cls, *a, **k): return datetime.fromtimestamp(*a, **k)

            @classmethod
            def strptime(cls, *a, **k): return datetime.strptime(*a, **k)
        FakeDT.__name__ = 'datetime'
        self.FakeDT = FakeDT
        self._patch_obj(datetime, FakeDT)
        import uuid as _u

        def fake_uuid4():
            self.ids += 1
            n = self.ids

            class U:
                hex = f"{n:032x}"
                def __str__(s): return f"uuid-{n}"
            return U()
        self.undo.append((_u, 'uuid4', _u.uuid4))
        _u.uuid4 = fake_uuid4

    def tick(self):
        if self.frozen is not None: return self.frozen
        k = self.clock_n
        self.clock_n += 1

        def gen(r):
            if self.clock_last is None:
                return schema.BASE_US + r.randint(-4, 4) * schema.H
            return self.clock_last + r.choice([0, 0, 0, 1, US, schema.H])
        us = self.leafv(f"now{k}", gen)
        self.clock_last = us
        return EPOCH + timedelta(microseconds=us)

    def _mods(self):
        return [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'openleadr' and m is not None]

    def _patch_obj(self, obj, value):
        for m in self._mods():
            for k, v in list(vars(m).items()):
                if v is obj:
                    self.undo.append((m, k, v))
                    setattr(m, k, value)

    def close(self):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        self.undo = []
        if self.loop is not None:
            self.loop.close()

    # ------------------------------------------------------------ contract API
    def make(self, name, sch): return sch.conc(self, name)

    def flag(self, name):
        n = self.seen.get(name)
        self.seen[name] = (n or 0) + 1
        if n is not None: name = f"{name}!{n - 1}"
        return bool(self.leafv(name, lambda r: r.random() < .5))

    def assume(self, c):
        if not c: raise SkipCase()

    def check(self, label, c):
        self.checks += 1
        if not c:
            raise CheckFailed(label)

    def cover(self, label): self.covers.add(label)

    def resolve(self, fn):
        if isinstance(fn, str):
            owner, name, obj = resolve(fn)
            return obj
        return fn

    def _run(self, fn, a, k):
        r = fn(*a, **k)
        if asyncio.iscoroutine(r):
            r = self.run_coro(r)
        return r

    def run_coro(self, c):
        if self.loop is None:
            self.loop = asyncio.new_event_loop()
        return self.loop.run_until_complete(asyncio.wait_for(c, 10))

    def call(self, fn, *a, **k):
        fn = self.resolve(fn)
        try:
            return self._run(fn, a, k)
        except (SkipCase, CheckFailed):
            raise
        except Exception as e:
            import traceback
            raise CheckFailed(f"{getattr(fn, '__qualname__', fn)} raises nothing",
                              ''.join(traceback.format_exception(e)[-3:]))

    def try_call(self, fn, *a, **k):
        fn = self.resolve(fn)
        try:
            return lib.Outcome(None, None, self._run(fn, a, k))
        except (SkipCase, CheckFailed):
            raise
        except Exception as e:
            return lib.Outcome(type(e), e, None)

    def stub(self, target, repl):
        owner, name, obj = resolve(target)
        if isinstance(repl, types.FunctionType): repl = lib.checked(repl, name)
        if isinstance(owner, type):
            for c in owner.__mro__:
                if name in c.__dict__:
                    self.undo.append((c, name, c.__dict__[name]))
                    setattr(c, name, repl if not isinstance(repl, (type, lib.Callback)) else _as_func(repl))
                    break
        else:
            self.undo.append((owner, name, obj))
            setattr(owner, name, repl)
            self._patch_obj(obj, repl)

    def modular(self, target, spec): pass

    def patch(self, target, value):
        owner, name, obj = resolve(target)
        self.undo.append((owner, name, obj))
        setattr(owner, name, value)
        self._patch_obj(obj, value)

    def cb(self, name, ret=None, mode='either', effect=None, fn=None, raises=None, signature=None):
        r = lib.Callback(self, name, ret=ret, mode=mode, effect=effect, fn=fn, raises=raises)
        if signature is not None:
            import inspect
            r.__signature__ = inspect.Signature([inspect.Parameter(n, inspect.Parameter.POSITIONAL_OR_KEYWORD)
                                                 for n in signature])
        return r

    def new(self, cls, **fields):
        o = object.__new__(cls)
        for k, v in fields.items(): object.__setattr__(o, k, v)
        return o

    def freeze(self):
        us = self.leafv('now', lambda r: schema.BASE_US + r.randint(-4, 4) * schema.H + r.choice([0, 0, 0, 1, -1, US]))
        self.frozen = EPOCH + timedelta(microseconds=us)
        return self.frozen

    def ite(self, c, a, b): return a if c else b
    def all_(self, *cs): return all(cs)
    def any_(self, *cs): return any(cs)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def same(self, a, b): return a is b or (isinstance(a, (str, int, float)) and type(a) is type(b) and a == b)
    def eq(self, a, b): return a == b

    def choice(self, name, n):
        return self.leafv(name, lambda r: r.randrange(n)) % n

    def size(self, name, n, deep=None, big=0):
        top = deep or n
        i = self.leafv(name, lambda r: r.randrange(top, big) if big and r.random() < .05 else r.randrange(top))
        if not isinstance(i, int) or not 0 <= i < max(top, big): raise SkipCase()
        return i

    def deepcopy(self, v):
        import copy
        return copy.deepcopy(v)

    def dt_text(self, name, ts):
        return ts.astimezone(timezone.utc).strftime('%Y-%m-%dT%H:%M:%S.%fZ')

    def parser_of(self, tok, ts): return None

    def returns(self, v): return lambda *a, **k: v

    def text(self, v): return str(v)

    def events(self, name):
        return [(list(a), k) for n, a, k in self.recs if n == name]

    def pick(self, name, xs):
        if len(xs) == 0: raise SkipCase()
        i = self.leafv(name, lambda r: r.randrange(len(xs)))
        if not 0 <= i < len(xs): raise SkipCase()
        return xs[i]

    def forall(self, xs, fn): return all(fn(x) for x in xs)
    def exists(self, xs, fn): return any(fn(x) for x in xs)


def _as_func(repl):
    def f(*a, **k): return repl(*a, **k)
    return f
