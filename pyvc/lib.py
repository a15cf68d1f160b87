"""Pieces of contract text shared by both modes: interpreted symbolically in proof mode, run by CPython
in concrete mode."""
import asyncio
import functools
import inspect


class Gap(BaseException):
    """The code under test uses something of a stand-in that the stand-in does not have: nothing can be said about this run."""


GAP = []


def gap(what):
    GAP.append(what)
    raise Gap(what)


def checked(fn, what):
    """fn, with calls that do not fit its signature turned into gaps"""
    sig = inspect.signature(fn)

    @functools.wraps(fn)
    def run(*a, **k):
        try: sig.bind(*a, **k)
        except TypeError: gap(f'call of {what}')
        return fn(*a, **k)
    run.verif_inner = fn
    del run.__wrapped__
    return run


def stand_in(cls):
    """Make uses of cls that it does not provide for gaps instead of errors of the code under test."""
    def missing(self, name):
        if name.startswith('__'): raise AttributeError(name)
        gap(f'{cls.__name__}.{name}')
    cls.verif_standin = True
    for n, f in list(cls.__dict__.items()):
        if type(f).__name__ == 'function' and n != '__init__':
            f.verif_standin = True
            setattr(cls, n, checked(f, f'{cls.__name__}.{n}'))
    cls.__getattr__ = missing


class AnyError(Exception):
    """An exception nothing is known about."""


class Outcome:
    """What a call did: `raised` is None or the exception class."""
    def __init__(self, raised, exc, value):
        self.raised = raised
        self.exc = exc
        self.value = value

    def is_a(self, cls):
        return self.raised is not None and issubclass(self.raised, cls)


class Callback:
    """A user supplied handler: records its calls and returns an arbitrary value of the given schema.
    mode: 'sync', 'async' or 'either' (arbitrary)."""
    def __init__(self, w, name, ret=None, mode='either', effect=None, fn=None, raises=None):
        self.w = w
        self.name = name
        self.ret = ret
        self.mode = mode
        self.effect = effect
        self.fn = fn
        self.raises = raises
        self.calls = []
        self.finished = []
        self.results = []

    def __call__(self, *args, **kwargs):
        k = len(self.calls)
        self.calls.append((args, kwargs))
        is_async = self.mode == 'async'
        if self.mode == 'either':
            is_async = self.w.flag(self.name + '.async' + str(k))
        if is_async:
            return self.coro(k, args, kwargs)
        return self.result(k, args, kwargs)

    async def coro(self, k, args, kwargs):
        return self.result(k, args, kwargs)

    def result(self, k, args, kwargs):
        if self.effect is not None:
            self.effect()
        if self.raises is not None:
            if self.w.flag(self.name + '.raises' + str(k)):
                raise self.raises("raised by the handler")
        if self.fn is not None:
            r = self.fn(*args, **kwargs)
        elif self.ret is None:
            r = None
        else:
            r = self.w.make(self.name + '.ret' + str(k), self.ret)
        self.finished.append(k)
        self.results.append(r)
        return r


class FakeFuture(asyncio.Future):
    """Stand-in for asyncio.Future (done or pending)."""
    def __init__(self, done):
        self._fdone = done
        self.fvalue = None
        self.sets = 0

    def done(self):
        return self._fdone

    def cancelled(self):
        return False

    def set_result(self, v):
        if self._fdone:
            raise RuntimeError('invalid state')
        self._fdone = True
        self.fvalue = v
        self.sets = self.sets + 1

    def __del__(self):
        pass


class Match:
    """A match object of the structured string matcher."""
    def __init__(self, all, names):
        self.all = all
        self.names = names

    def groups(self, default=None):
        return tuple([default if g is None else g for g in self.all[1:]])

    def group(self, *n):
        if len(n) == 0:
            return self.all[0]
        r = [self[k] for k in n]
        return r[0] if len(n) == 1 else tuple(r)

    def groupdict(self, default=None):
        return {k: (default if self.all[i] is None else self.all[i]) for k, i in self.names.items()}

    def __getitem__(self, k):
        return self.all[self.names[k] if isinstance(k, str) else k]
