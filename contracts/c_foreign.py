"""C18 what a received message says is what the handlers get, whoever wrote it."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
import re
from xml.sax.saxutils import escape
from openleadr import messaging, utils

URIS = {'ei': 'http://docs.oasis-open.org/ns/energyinterop/201110', 'oadr': 'http://openadr.org/oadr-2.0b/2012/07',
        'xcal': 'urn:ietf:params:xml:ns:icalendar-2.0', 'strm': 'urn:ietf:params:xml:ns:icalendar-2.0:stream',
        'pyld': 'http://docs.oasis-open.org/ns/energyinterop/201110/payloads',
        'emix': 'http://docs.oasis-open.org/ns/emix/2011/06'}
T = ['messaging.parse_message', 'utils.normalize_dict']


class Writer:
    """writes elements in one of the forms that mean the same"""
    def __init__(self, w, style):
        self.w = w
        self.style = style

    def el(self, name, *content, attrs=''):
        ns, local = name.split(':')
        body = ''
        for x in content:
            body = f'{body}{x}'
        if self.style == 0:
            return f'<{ns}:{local}{attrs}>{body}</{ns}:{local}>'
        if self.style == 1:
            return f'<{local} xmlns="{URIS[ns]}"{attrs}>{body}</{local}>'
        return f'\n  <x{ns}:{local}{attrs}>{body}</x{ns}:{local}>\n  '

    def text(self, v):
        return v if self.w.symbolic else escape(v)

    def message(self, name, *content):
        p = 'x' if self.style == 2 else ''
        decl = ''
        for ns in URIS:
            decl = f'{decl} xmlns:{p}{ns}="{URIS[ns]}"'
        m = self.el('oadr:oadrPayload', self.el('oadr:oadrSignedObject', self.el('oadr:' + name, *content)), attrs=decl)
        return f'<?xml version="1.0" encoding="utf-8"?>{m}'


def ident(w, name):
    v = w.make(name, Id(pool=['id-1', 'x&y', '1.2.3', '12a', '-', 'a<b', '0x10', '1e5', 'None', 'P1D', '2020-01-01T00:00:00Z', 'a b', 'a  b', 'a\nb'],
                        avoid=('true', 'false')))
    if not w.symbolic:
        w.assume(v == v.strip() and '\r' not in v)
    w.assume(re.match(r'^-?\d+$', v) is None)
    w.assume(re.match(r'^-?(\d+\.\d*|\.\d+)$', v) is None)
    return v


def read(w, text, name):
    if not w.symbolic and w.flag('as bytes'):
        text = text.encode('utf-8')
    t, p = w.call('openleadr.messaging.parse_message', text)
    w.check('the type of message', t == name)
    return p


class Codec:
    """parse_duration and parse_datetime, which C17 decides"""
    def __init__(self, w):
        self.w = w
        self.durations = []
        self.times = []

    def duration(self, v):
        if not self.w.symbolic:
            return utils.timedeltaformat(v)
        self.durations.append(v)
        return f'PT{len(self.durations)}S'

    def time(self, v):
        if not self.w.symbolic:
            return utils.datetimeformat(v)
        self.times.append(v)
        return f'2020-01-01T00:00:00.{len(self.times):06d}Z'

    def parse_duration(self, value):
        if isinstance(value, timedelta):
            return value
        m = re.fullmatch(r'PT(\d+)S', value)
        if m is None:
            raise ValueError('no duration')
        return self.durations[int(m.group(1)) - 1]

    def parse_time(self, value):
        m = re.fullmatch(r'2020-01-01T00:00:00\.(\d{6})Z', value)
        if m is None:
            return value
        return self.times[int(m.group(1)) - 1]


def codec(w):
    c = Codec(w)
    if w.symbolic:
        w.modular('openleadr.utils.parse_duration', c.parse_duration)
        w.modular('openleadr.utils.parse_datetime', c.parse_time)
    return c


@contract('C18', targets=T, samples=500, budget=150)
def leaves(w):
    """Numbers become numbers, true and false booleans; every other text stays exactly as it is."""
    x = Writer(w, w.choice('style', 3))
    k = w.choice('kind', 6)
    want = None
    text = ''
    if k == 0:
        want = w.make('int', Int(-10 ** 9, 10 ** 9, pool=[0, 1, -1, 10]))
        text = f'{want}'
    if k == 1:
        # any decimal number, to the sixth digit
        a, b = w.make('whole', Int(0, 10 ** 6, pool=[0, 1, 10])), w.make('part', Int(0, 999999, pool=[0, 5, 500000]))
        neg = w.flag('negative')
        text = ('-' if neg else '') + f'{a}.{b:06d}'
        want = a + b / 10 ** 6
        if neg:
            want = -want
    if k == 2:
        want = w.flag('bool')
        text = 'true' if want else 'false'
    if k == 3:
        want = ident(w, 'text')
        text = x.text(want)
    if k == 4:
        # these look like a number and are none
        n, m, o = w.make('n', Int(0, 10 ** 4)), w.make('m', Int(0, 10 ** 4)), w.make('o', Int(0, 10 ** 4))
        text = [f'{n}.{m}.{o}', f'{n}-{m}', f'{n} {m}', f'{n}/{m}', f'{n}e{m}', f'{n}a', f'+{n}', f'--{n}', f'{n},{m}', f'{n}.{m}.', f'.{n}.'][w.choice('form', 11)]
        want = text
    if k == 5:
        want = ['True', 'FALSE', 'yes', '-', '.', '-.', 'None', 'nan', 'inf', 'Infinity', '1_000'][w.choice('word', 11)]
        text = want
    p = read(w, x.message('oadrResponse', x.el('ei:eiResponse', x.el('ei:responseCode', '200'),
                                               x.el('ei:responseDescription', text), x.el('pyld:requestID', 'r'))), 'oadrResponse')
    got = p['response']['response_description']
    if k == 1 and not w.symbolic:
        w.check('the number that was written', abs(got - want) < 1e-6)
    else:
        w.check('the value that was written', w.eq(got, want))
    w.check('numbers are numbers and text is text',
            isinstance(got, str) if k in (3, 4, 5) else isinstance(got, [int, float, bool][k]))


@contract('C18', targets=T, samples=400, budget=150)
def empty_and_missing(w):
    """What is not in a message is not in the result; what is empty is None."""
    x = Writer(w, w.choice('style', 3))
    rid, ven = ident(w, 'rid'), ident(w, 'ven')
    desc = w.choice('description', 3)
    has = w.flag('ven?')
    parts = [x.el('ei:responseCode', '200')]
    if desc > 0:
        parts.append(x.el('ei:responseDescription', x.text(rid) if desc == 2 else ''))
    parts.append(x.el('pyld:requestID', x.text(rid)))
    c = [x.el('ei:eiResponse', *parts)]
    if has:
        c.append(x.el('ei:venID', x.text(ven)))
    p = read(w, x.message('oadrResponse', *c), 'oadrResponse')
    want = {'response_code': 200, 'request_id': rid}
    if desc > 0:
        want['response_description'] = rid if desc == 2 else None
    w.check('the response', w.eq(p['response'], want))
    w.check('nothing else', w.eq(p, dict({'response': p['response']}, ven_id=ven) if has else {'response': p['response']}))


@contract('C18', targets=T, samples=400, budget=150)
def pending_reports(w):
    """Pending reports are a list of ids, however many there are."""
    x = Writer(w, w.choice('style', 3))
    n = w.size('n', 3, 4)
    ids = [ident(w, 'id' + str(i)) for i in range(n)]
    if w.flag('whitespace'):
        body = [x.el('ei:reportRequestID', x.text(i)) for i in ids] + ['\n   ']
    else:
        body = [x.el('ei:reportRequestID', x.text(i)) for i in ids]
    kind = 'oadrCreatedReport' if w.flag('created') else 'oadrCanceledReport'
    p = read(w, x.message(kind, x.el('ei:eiResponse', x.el('ei:responseCode', '200'), x.el('pyld:requestID', 'r')),
                          x.el('oadr:oadrPendingReports', *body)), kind)
    w.check('every pending report, in order', w.eq(p['pending_reports'], [{'report_request_id': i} for i in ids]))


def number_el(w, x, v, how):
    """a value in the wrapping for floats or for integers"""
    return x.el('ei:payloadFloat' if how == 0 else 'ei:payloadInt', x.el('ei:value', v))


@contract('C18', targets=T, samples=400, budget=150)
def report_values(w):
    """Reports and their values are lists; a payload is its value, whether written as an integer or a float."""
    x = Writer(w, w.choice('style', 3))
    c = codec(w)
    n = w.size('n', 2, 3)
    w.assume(n > 0)
    reports, want = [], []
    for i in range(n):
        q = 'p' + str(i)
        ivs, wi = [], []
        for j in range(1 + w.choice(q + '.n', 2)):
            r = q + '.' + str(j)
            rid, t = ident(w, r + '.r'), w.make(r + '.t', DT())
            v = w.make(r + '.v', Int(-10 ** 6, 10 ** 6, pool=[0, 1]))
            d = seconds(w, r + '.d')
            s = c.time(t)
            h = c.duration(d)
            pay = x.el('oadr:oadrReportPayload', x.el('ei:rID', x.text(rid)), number_el(w, x, f'{v}', w.choice(r + '.how', 2)))
            wp = {'r_id': rid, 'value': v}
            # the values of several datapoints in one interval
            if i + j == 0 and w.choice(r + '.more', 2) == 1:
                rid2 = ident(w, r + '.r2')
                pay = pay + x.el('oadr:oadrReportPayload', x.el('ei:rID', x.text(rid2)), number_el(w, x, '7', w.choice(r + '.how2', 2)))
                wp = [wp, {'r_id': rid2, 'value': 7}]
            ivs.append(x.el('ei:interval', x.el('xcal:dtstart', x.el('xcal:date-time', s)),
                            x.el('xcal:duration', x.el('xcal:duration', h)), pay))
            wi.append({'dtstart': t, 'duration': d, 'report_payload': wp})
        rr, spec = ident(w, q + '.rr'), ident(w, q + '.spec')
        reports.append(x.el('oadr:oadrReport', x.el('strm:intervals', *ivs), x.el('ei:reportRequestID', x.text(rr)),
                            x.el('ei:reportSpecifierID', x.text(spec))))
        want.append({'intervals': wi, 'report_request_id': rr, 'report_specifier_id': spec})
    p = read(w, x.message('oadrUpdateReport', x.el('pyld:requestID', 'r'), *reports), 'oadrUpdateReport')
    w.check('every report with every value, in order', w.eq(p, {'request_id': 'r', 'reports': want}))


def seconds(w, name):
    return w.make(name, Dur(0, 400 * 86400, whole=True, pool=[0, 1, 60, 900, 3600]))


KINDS = [('ei:groupID', 'group_id'), ('ei:groupName', 'group_name'), ('ei:resourceID', 'resource_id'), ('ei:venID', 'ven_id'),
         ('ei:partyID', 'party_id')]


@contract('C18', targets=T, samples=400, budget=150)
def event_targets(w):
    """The targets of an event are a list and the same by their type, however many there are of each."""
    x = Writer(w, w.choice('style', 3))
    a = w.choice('kind', len(KINDS))
    b = w.choice('other kind', len(KINDS))
    w.assume(a < b)
    els, ts, by = [], [], {}
    for k, n in ((a, w.choice('n', 3)), (b, w.choice('m', 3))):
        name, key = KINDS[k]
        vs = [ident(w, 't' + str(k) + '.' + str(i)) for i in range(n)]
        els = els + [x.el(name, x.text(v)) for v in vs]
        ts = ts + [{key: v} for v in vs]
        if n > 0:
            by[key] = vs
    ev = x.el('oadr:oadrEvent', x.el('ei:eiEvent', x.el('ei:eiTarget', *els)), x.el('oadr:oadrResponseRequired', 'always'))
    twice = w.flag('twice')
    p = read(w, x.message('oadrDistributeEvent', x.el('pyld:requestID', 'r'), ev, ev if twice else ''), 'oadrDistributeEvent')
    w.check('as many events as there are', len(p['events']) == (2 if twice else 1))
    for e in p['events']:
        w.check('all targets in order', w.eq(e['targets'], ts))
        w.check('all targets by type', w.eq(e['targets_by_type'], by))
        w.check('whether a response is required', e['response_required'] == 'always')


@contract('C18', targets=T, samples=400, budget=150)
def event_contents(w):
    """Signals and intervals are lists; payloads, ids and the test flag have their types."""
    x = Writer(w, w.choice('style', 3))
    c = codec(w)
    sigs, ws = [], []
    n = w.size('n', 2, 3)
    w.assume(n > 0)
    for i in range(n):
        q = 's' + str(i)
        ivs, wi = [], []
        for j in range(1 + w.choice(q + '.n', 2)):
            r = q + '.' + str(j)
            d, v = seconds(w, r + '.d'), w.make(r + '.v', Int(-100, 100, pool=[0, 1]))
            h = c.duration(d)
            ivs.append(x.el('ei:interval', x.el('xcal:duration', x.el('xcal:duration', h)), x.el('xcal:uid', x.el('xcal:text', j)),
                            x.el('ei:signalPayload', number_el(w, x, f'{v}', w.choice(r + '.how', 2)))))
            wi.append({'duration': d, 'uid': j, 'signal_payload': v})
        sid = ident(w, q + '.id')
        cv = w.make(q + '.cv', Int(-100, 100, pool=[0, 1]))
        sigs.append(x.el('ei:eiEventSignal', x.el('strm:intervals', *ivs), x.el('ei:signalName', 'SIMPLE'), x.el('ei:signalID', x.text(sid)),
                         x.el('ei:currentValue', number_el(w, x, f'{cv}', i % 2))))
        ws.append({'intervals': wi, 'signal_name': 'SIMPLE', 'signal_id': sid, 'current_value': cv})
    ev = x.el('oadr:oadrEvent', x.el('ei:eiEvent', x.el('ei:eiEventSignals', *sigs)), x.el('oadr:oadrResponseRequired', 'never'))
    p = read(w, x.message('oadrDistributeEvent', x.el('pyld:requestID', 'r'), ev), 'oadrDistributeEvent')
    w.check('every signal with every interval, in order', w.eq(p['events'], [{'event_signals': ws, 'response_required': 'never'}]))


@contract('C18', targets=T, samples=300)
def test_events(w):
    """Rule 6: every test event text but 'false' means that it is a test."""
    x = Writer(w, w.choice('style', 3))
    k = w.choice('text', 9)
    text = ['true', 'false', '1', '', '', '0', '0.0', 'no', 'P0D'][k]
    if k == 3:
        text = x.text(ident(w, 'other'))
    if k == 4:
        text = f"{w.make('number', Int(0, 3))}"
    eid, n = ident(w, 'id'), w.make('mod', Int(0, 10 ** 6))
    mc = ident(w, 'mc')
    ev = x.el('oadr:oadrEvent', x.el('ei:eiEvent', x.el('ei:eventDescriptor', x.el('ei:eventID', x.text(eid)), x.el('ei:modificationNumber', f'{n}'),
                                                       x.el('ei:eiMarketContext', x.el('emix:marketContext', x.text(mc))),
                                                       x.el('ei:testEvent', text))),
              x.el('oadr:oadrResponseRequired', 'always'))
    p = read(w, x.message('oadrDistributeEvent', ev), 'oadrDistributeEvent')
    d = p['events'][0]['event_descriptor']
    w.check('a test unless it says false', d['test_event'] is (text != 'false'))
    w.check('the rest of the descriptor', w.eq(d, {'event_id': eid, 'modification_number': n, 'market_context': mc, 'test_event': d['test_event']}))


@contract('C18', targets=T, samples=300, budget=150)
def opt_responses(w):
    """The responses to events are a list with the ids of their events, however many there are."""
    x = Writer(w, w.choice('style', 3))
    n = w.size('n', 3, 4)
    w.assume(n > 0)
    es, ws = [], []
    for i in range(n):
        q = 'e' + str(i)
        eid, m, opt = ident(w, q + '.id'), w.make(q + '.mod', Int(0, 10 ** 6)), w.make(q + '.opt', Enum('optIn', 'optOut'))
        es.append(x.el('ei:eventResponse', x.el('ei:responseCode', '200'), x.el('pyld:requestID', 'r'),
                       x.el('ei:qualifiedEventID', x.el('ei:eventID', x.text(eid)), x.el('ei:modificationNumber', f'{m}')),
                       x.el('ei:optType', opt)))
        ws.append({'response_code': 200, 'request_id': 'r', 'event_id': eid, 'modification_number': m, 'opt_type': opt})
    ven = ident(w, 'ven')
    p = read(w, x.message('oadrCreatedEvent', x.el('pyld:eiCreatedEvent', x.el('ei:eiResponse', x.el('ei:responseCode', '200')),
                                                   x.el('ei:eventResponses', *es), x.el('ei:venID', x.text(ven)))), 'oadrCreatedEvent')
    w.check('every response, in order', w.eq(p, {'response': {'response_code': 200}, 'event_responses': ws, 'ven_id': ven}))
