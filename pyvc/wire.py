"""Templates and XML: the real jinja2 and xmltodict run on the concrete structure, with symbolic leaves carried through
as placeholders.

Rendering.  The repository's compiled template runs natively; symbolic leaves of its context are `Hole` objects.  Every
question the template asks about a hole (truth, comparison, a string method, a filter of the repository) is answered by
the interpreter, which forks where both answers are possible; a hole that is written out becomes a placeholder.

Parsing.  The real parser runs on the text with placeholders; leaves of the result are put back.

Placeholders of texts contain blanks, line breaks, quotes, ampersands and angle brackets (escaped the way jinja2 escapes
them), so that anything that is done to the text of a message shows.

Assumed (reported as library contracts): a text survives escaping and parsing if such a placeholder does and the text has
no leading or trailing white space; str() of a number is not changed by either."""
import re
import jinja2
import jinja2.environment
import markupsafe
import xmltodict
from .values import *
from .intrinsics import intrinsic, TABLE, USED, value_attr
from .interp import MISSING

L, R = '\ue000', '\ue001'
SPECIAL = 'x  y\n<&>\t"\' z'
ESCAPED = str(markupsafe.escape(SPECIAL))
PH = re.compile(L + '(?:' + re.escape(ESCAPED) + ')?' + r'(\d+)' + R)
PH_READ = re.compile(L + '(?:' + re.escape(SPECIAL) + ')?' + r'(\d+)' + R)


class Ctx:
    def __init__(self, it):
        self.it = it
        self.holes = []

    def put(self, v):
        self.holes.append(v)
        return f'{L}{ESCAPED if isinstance(v, (SAtom, SText)) else ""}{len(self.holes) - 1}{R}'

    def text(self, v):
        return ''.join(x if isinstance(x, str) else self.put(x) for x in self.it.fmt_norm(v))

    def back(self, s, ph=PH):
        """text with placeholders -> value"""
        if L not in s: return s
        parts, pos = [], 0
        for m in ph.finditer(s):
            if m.start() > pos: parts.append(s[pos:m.start()])
            parts.append(self.holes[int(m.group(1))])
            pos = m.end()
        if pos < len(s): parts.append(s[pos:])
        return self.it.mk_fmt(parts)


def written(cx, v, safe):
    """the text written for a value"""
    it = cx.it
    v = it.force(v)
    if isinstance(v, SBool): return str(bool(it.decide(v.t)))
    if isinstance(v, SAtom) and not it.truth(v): return ''
    if isinstance(v, (SAtom, SText)):
        if safe: raise Unsupported("text written without escaping")
        return cx.put(v)
    if isinstance(v, (SInt, SReal)): return cx.put(v)
    if isinstance(v, SFmt):
        out = ''
        for x in it.fmt_norm(v):
            if isinstance(x, str): out += x if safe else str(markupsafe.escape(x))
            elif isinstance(x, (SInt, SReal)): out += cx.put(x)
            elif isinstance(x, SAtom) and not safe: out += written(cx, x, False)
            elif isinstance(x, tuple) and x[0] == 'markup' or safe: out += cx.put(x)
            else: raise Unsupported(f"writing {x!r}"[:100])
        return out
    raise Unsupported(f"writing {type(v).__name__}")


class Hole:
    def __init__(self, cx, v):
        self._cx = cx
        self._v = v

    def __html__(self): return written(self._cx, self._v, False)
    def __str__(self): return written(self._cx, self._v, True)
    def __bool__(self): return bool(self._cx.it.truth(self._v))

    def _cmp(self, o, f):
        it = self._cx.it
        r = f(it, self._v, unwrap(o))
        r = it.force(r)
        return bool(it.decide(r.t)) if isinstance(r, SBool) else bool(it.truth(r))

    def __eq__(self, o):
        r = self._cx.it.eq(self._v, unwrap(o))
        return r if isinstance(r, bool) else bool(self._cx.it.decide(r))

    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): raise Unsupported("hash of a symbolic value in a template")
    def __lt__(self, o): raise Unsupported("comparison in a template")
    __gt__ = __le__ = __ge__ = __lt__
    def __iter__(self): raise Unsupported("iteration over a symbolic value in a template")
    def __len__(self): raise Unsupported("length of a symbolic value in a template")

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        cx = object.__getattribute__(self, '_cx')
        a = value_attr(cx.it, self._v, name)
        if a is MISSING: raise AttributeError(name)

        def call(*args, **kw):
            return wrap(cx, cx.it.call(a, [unwrap(x) for x in args], {k: unwrap(x) for k, x in kw.items()}))
        return call


class Inst:
    """an object of the repository in a template"""
    def __init__(self, cx, v):
        self._cx = cx
        self._v = v

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        cx = object.__getattribute__(self, '_cx')
        v = object.__getattribute__(self, '_v')
        if name not in v.fields and cx.it.class_attr(v.cls, name) is MISSING: raise AttributeError(name)
        return wrap(cx, cx.it.getattr(v, name))


def wrap(cx, v):
    it = cx.it
    v = it.force(v)
    if isinstance(v, HDict):
        return {(k if isinstance(k, str) else it.intr.atom_concretise(it, it.force(k))): wrap(cx, x)
                for k, x in [(e.key, e.value) for e in it.dict_ents(v)]}
    if isinstance(v, HList):
        if not v.concrete: raise Unsupported("symbolic list in a template")
        return [wrap(cx, x) for x in v.items]
    if isinstance(v, tuple): return tuple(wrap(cx, x) for x in v)
    if isinstance(v, HInst): return Inst(cx, v)
    if isinstance(v, SBool): return bool(it.decide(v.t))
    if is_sym(v): return Hole(cx, v)
    return v


def unwrap(v):
    if isinstance(v, (Hole, Inst)): return v._v
    if isinstance(v, jinja2.Undefined): raise Unsupported("undefined value in a filter")
    return v


@intrinsic(jinja2.environment.Template.render)
def _render(it, a, k):
    t = a[0]
    cx = Ctx(it)
    env = t.environment
    ctx = {}
    for x in a[1:]: ctx.update(wrap(cx, x))
    ctx.update({n: wrap(cx, x) for n, x in k.items()})
    saved = dict(env.filters)
    saved_tests = dict(env.tests)
    kinds = {'string': str, 'integer': int, 'float': float, 'number': (int, float), 'boolean': bool, 'mapping': dict,
             'iterable': str, 'sequence': str}

    def kind_test(name):
        def run(v):
            if not isinstance(v, Hole): return saved_tests[name](v)
            return bool(it.truth(it.call(isinstance, [v._v, kinds[name]], {})))
        return run

    def no_test(name):
        def run(v, *args):
            if isinstance(v, Hole) or any(isinstance(x, Hole) for x in args):
                raise Unsupported(f"test {name} of a symbolic value in a template")
            return saved_tests[name](v, *args)
        return run

    def filt(f):
        def run(v, *args, **kw):
            return wrap(cx, it.call(f, [it.lift(unwrap(v))] + [it.lift(unwrap(x)) for x in args],
                                    {n: it.lift(unwrap(x)) for n, x in kw.items()}))
        return run

    def safe(v):
        return markupsafe.Markup(str(v) if isinstance(v, Hole) else v)
    try:
        for n, f in saved.items():
            if (getattr(f, '__module__', None) or '').split('.')[0] == 'openleadr': env.filters[n] = filt(f)
        env.filters['safe'] = safe
        for n in saved_tests:
            if n in kinds: env.tests[n] = kind_test(n)
            elif n not in ('defined', 'undefined', 'none', 'eq', 'equalto', '==', 'ne', '!=', 'true', 'false', 'sameas', 'filter', 'test'):
                env.tests[n] = no_test(n)
        try:
            text = env.concat(t.root_render_func(t.new_context(ctx)))
        except jinja2.TemplateError as e:
            from .interp import native_exc
            raise native_exc(e)
    finally:
        env.filters.clear()
        env.filters.update(saved)
        env.tests.clear()
        env.tests.update(saved_tests)
    USED.add('text with placeholders survives jinja2 escaping')
    return cx.back(text)


@intrinsic(jinja2.environment.Environment.get_template)
def _get_template(it, a, k):
    name = it.force(a[1])
    if isinstance(name, SAtom): name = it.intr.atom_concretise(it, name)
    if not isinstance(name, str): raise Unsupported("template name")
    try: return a[0].get_template(name)
    except jinja2.TemplateError as e:
        from .interp import native_exc
        raise native_exc(e)


@intrinsic(xmltodict.parse)
def _parse(it, a, k):
    s = it.force(a[0])
    cx = Ctx(it)
    if isinstance(s, SFmt):
        text = cx.text(s)
    elif isinstance(s, (str, bytes)): text = s
    else: raise Unsupported("parsing")
    kw = {n: (it.unlift(v) if isinstance(v, HObj) else v) for n, v in k.items()}
    try:
        d = xmltodict.parse(text, **kw)
    except Exception as e:
        from .interp import native_exc
        if cx.holes: raise Unsupported("the text with placeholders is no XML")
        raise native_exc(e)
    USED.add('text with placeholders survives xmltodict.parse')

    def conv(v):
        if isinstance(v, str): return cx.back(v, PH_READ)
        if isinstance(v, dict): return HDict(it.p, [Ent(cx.back(x, PH_READ), conv(y)) for x, y in v.items()])
        if isinstance(v, list): return HList(it.p, [conv(x) for x in v])
        return v
    return conv(d)
