"""C17 durations, timestamps and booleans on the wire."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
import re
from openleadr import utils


@contract('C17', targets=['utils.timedeltaformat', 'utils.parse_duration'], samples=300)
def duration_round_trip(w):
    """A duration arrives as it was sent (the wire has whole seconds)."""
    v = w.make('v', Dur(-4000 * 86400, 4000 * 86400, whole=True))
    s = w.call('openleadr.utils.timedeltaformat', v)
    w.check('an RFC 5545 duration', re.fullmatch(r'[+-]?P(\d+D)?(T(\d+H)?(\d+M)?(\d+S)?)?', s) is not None)
    w.check('arrives as sent', w.call('openleadr.utils.parse_duration', s) == v)
    w.check('durations are kept', w.call('openleadr.utils.parse_duration', v) == v)


@contract('C17', targets=['utils.timedeltaformat'], samples=100)
def duration_subseconds(w):
    """Sub-second parts are cut off, towards zero, never anything else."""
    v = w.make('v', Dur(-400 * 86400, 400 * 86400))
    s = w.call('openleadr.utils.timedeltaformat', v)
    r = w.call('openleadr.utils.parse_duration', s)
    w.check('within a second', w.all_(abs(v) - abs(r) >= timedelta(0), abs(v) - abs(r) < timedelta(seconds=1)))
    w.check('same sign', w.any_(r == timedelta(0), (r < timedelta(0)) == (v < timedelta(0))))
    x = w.choice('other', 3)
    o = [None, 'PT5M', 7][x]
    w.check('anything else is left alone', w.eq(w.call('openleadr.utils.timedeltaformat', o), o))


def component(w, name, unit):
    """'' or a number and its unit; the number may have leading zeros"""
    if not w.flag(name + '?'):
        return '', 0
    n = w.make(name, Int(0, 9999, pool=[0, 1, 7, 10, 59, 60, 61, 100, 365]))
    return ('0' if w.flag(name + '0') else '') + f'{n}' + unit, n


@contract('C17', targets=['utils.parse_duration'], samples=400, budget=200)
def duration_of_text(w):
    """Every RFC 5545 duration is the sum of its parts, with its sign; a year is 365 days and a month 30."""
    sign = ['', '+', '-'][w.choice('sign', 3)]
    if w.flag('weeks'):
        n = w.make('w', Int(0, 999, pool=[0, 1, 2, 52]))
        text, want = f'{sign}P{n}W', timedelta(weeks=n)
    else:
        ys, y = component(w, 'y', 'Y')
        mos, mo = component(w, 'mo', 'M')
        ds, d = component(w, 'd', 'D')
        hs, h = component(w, 'h', 'H')
        ms, m = component(w, 'm', 'M')
        ss, s = component(w, 's', 'S')
        time = 'T' + hs + ms + ss if hs != '' or ms != '' or ss != '' else ''
        w.assume(ys != '' or mos != '' or ds != '' or time != '')
        text = sign + 'P' + ys + mos + ds + time
        want = timedelta(days=365 * y + 30 * mo + d, hours=h, minutes=m, seconds=s)
    got = w.call('openleadr.utils.parse_duration', text)
    w.check('the sum of its parts', got == (-want if sign == '-' else want))


@contract('C17', targets=['utils.parse_duration'], samples=500)
def duration_malformed(w):
    """Text that is no duration is refused, not interpreted in part."""
    s = w.make('s', Text(['P', 'T', '1', '12', 'D', 'H', 'M', 'S', 'W', 'Y', '-', '+', ' ', 'x', '.5', 'PT1H', 'P1D', '\n']))
    w.assume(re.fullmatch(r'[+-]?P?(\d+[YMDW])*T?(\d+[HMS])*', s) is None)
    o = w.try_call('openleadr.utils.parse_duration', s)
    w.check('refused', o.is_a(ValueError))


@contract('C17', targets=['utils.datetimeformat', 'utils.parse_datetime'], samples=300)
def datetime_round_trip(w):
    """A timestamp arrives as it was sent, to the microsecond."""
    v = w.make('v', DT())
    s = w.call('openleadr.utils.datetimeformat', v)
    w.check('the wire format', re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{6}Z', s) is not None)
    r = w.call('openleadr.utils.parse_datetime', s)
    w.check('arrives as sent', r == v)
    w.check('aware', r.tzinfo is not None)
    s2 = w.call('openleadr.utils.datetimeformat', v, utils.DATETIME_FORMAT_NO_MICROSECONDS)
    r2 = w.call('openleadr.utils.parse_datetime', s2)
    w.check('without microseconds: the second it falls in', w.all_(v - r2 >= timedelta(0), v - r2 < timedelta(seconds=1)))


@contract('C17', targets=['utils.parse_datetime'], samples=300)
def datetime_of_text(w):
    """Fractions of a second may have any number of digits; digits beyond the microsecond are cut off."""
    v = w.make('v', DT(whole=True)).astimezone(timezone.utc)
    k = w.choice('digits', 10)
    base = f"{v.year:04d}-{v.month:02d}-{v.day:02d}T{v.hour:02d}:{v.minute:02d}:{v.second:02d}"
    if k == 0:
        text, micro = base + 'Z', 0
    else:
        n = w.make('fraction', Int(0, 10 ** k - 1, pool=[0, 1, 5, 10 ** (k - 1)]))
        spec = '0' + str(k) + 'd'
        text = base + '.' + format(n, spec) + 'Z'
        micro = n * 10 ** (6 - k) if k <= 6 else n // 10 ** (k - 6)
    r = w.call('openleadr.utils.parse_datetime', text)
    w.check('the instant', r == v + timedelta(microseconds=micro))


@contract('C17', targets=['utils.parse_boolean', 'utils.booleanformat'], samples=60)
def booleans(w):
    b = w.flag('b')
    s = w.call('openleadr.utils.booleanformat', b)
    w.check('lower case words', s == w.ite(b, 'true', 'false'))
    w.check('arrives as sent', w.iff(w.call('openleadr.utils.parse_boolean', s), b))
    t = w.make('t', Enum('true', 'false'))
    w.check('text is kept', w.call('openleadr.utils.booleanformat', t) == t)
    x = w.make('x', Id(pool=['True', 'yes', '1', 'TRUE'], empty=True))
    w.assume(w.all_(x != 'true', x != 'false'))
    o = w.try_call('openleadr.utils.booleanformat', x)
    w.check('anything else is refused', o.is_a(ValueError))
    w.check('only true is true', not w.call('openleadr.utils.parse_boolean', x))
    o = w.try_call('openleadr.utils.booleanformat', w.make('n', Int(2, 9)))
    w.check('numbers are refused', o.is_a(ValueError))
