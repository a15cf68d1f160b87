"""C25 every message arrives as it was sent: create_message, the templates, and parse_message, for every message type."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
import re
from openleadr import enums, messaging, objects, utils

POOL = ['id-1', 'x&y', 'a<b>c', '"q"', "it's", 'sn\u00f6', 'a b', 'http://x/?a=1&b=2', '1.2.3', '12a', '-', 'None', 'True', '0x10', '1e5', 'a  b', 'a\nb', 'a \t b']
ENTRY = 'openleadr.messaging.create_message'


def ident(w, name):
    """text that is neither a number nor a boolean (see known-findings.txt for those)"""
    v = w.make(name, Id(pool=POOL, avoid=('true', 'false')))
    if not w.symbolic:
        w.assume(v == v.strip() and '\r' not in v)
    w.assume(re.match(r'^-?\d+$', v) is None)
    w.assume(re.match(r'^-?(\d+\.\d*|\.\d+)$', v) is None)
    return v


def uri(w, name):
    """market contexts are URIs"""
    v = ident(w, name)
    if not w.symbolic:
        w.assume(re.match(r'^([A-Za-z][A-Za-z0-9]*://[A-Za-z][A-Za-z0-9.-]*(/[A-Za-z0-9/?&=_.-]*)?|[A-Za-z0-9?&=_.-]+)$', v) is not None)
    return v


def seconds(w, name, hi=400 * 86400):
    return w.make(name, Dur(0, hi, whole=True, pool=[0, 1, 60, 900, 3600, 5400, 86400]))


def number(w, name):
    return w.make(name, Int(-10 ** 6, 10 ** 6, pool=[0, 1, 200, 452]))


class Codec:
    """C17 in a nutshell: what is formatted is read back as it was"""
    def __init__(self):
        self.durations = []
        self.times = []

    def fmt_duration(self, value):
        if not isinstance(value, timedelta):
            return value
        self.durations.append(value)
        return f'PT{len(self.durations)}S'

    def parse_duration(self, value):
        if isinstance(value, timedelta):
            return value
        m = re.fullmatch(r'PT(\d+)S', value)
        if m is None:
            raise ValueError('no duration')
        return self.durations[int(m.group(1)) - 1]

    def fmt_time(self, value, format=None):
        if not isinstance(value, datetime):
            return value
        self.times.append(value)
        return f'2020-01-01T00:00:00.{len(self.times):06d}Z'

    def parse_time(self, value):
        m = re.fullmatch(r'2020-01-01T00:00:00\.(\d{6})Z', value)
        if m is None:
            return value
        return self.times[int(m.group(1)) - 1]


def sent(w, message_type, payload, want):
    """create the message, read it back, compare"""
    if w.symbolic:
        cd = Codec()
        w.modular('openleadr.utils.timedeltaformat', cd.fmt_duration)
        w.modular('openleadr.utils.parse_duration', cd.parse_duration)
        w.modular('openleadr.utils.datetimeformat', cd.fmt_time)
        w.modular('openleadr.utils.parse_datetime', cd.parse_time)
    text = w.call(ENTRY, message_type, **payload)
    if not w.symbolic:
        w.check('conforms to the schema', messaging.validate_xml_schema(text) is not None)
    t, got = w.call('openleadr.messaging.parse_message', text)
    w.check('the type of message', t == message_type)
    for key in want:
        w.check('arrives as sent: ' + key, w.all_(key in got, w.eq(got.get(key), want[key])))
    w.check('nothing else arrives', w.all_(*[key in want for key in got]))


def response(w, name='response'):
    return {'response_code': w.make(name + '.code', Int(100, 599, pool=[200, 452])),
            'response_description': ident(w, name + '.text'), 'request_id': ident(w, name + '.rid')}


@contract('C25', targets=['messaging.create_message', 'messaging.parse_message', 'utils.normalize_dict'], samples=400)
def simple_requests(w):
    """Requests that carry ids only."""
    k = w.choice('type', 7)
    a, b, c = ident(w, 'a'), ident(w, 'b'), ident(w, 'c')
    if k == 0:
        sent(w, 'oadrPoll', {'ven_id': a}, {'ven_id': a})
    if k == 1:
        sent(w, 'oadrQueryRegistration', {'request_id': a}, {'request_id': a})
    if k == 2:
        sent(w, 'oadrRequestReregistration', {'ven_id': a}, {'ven_id': a})
    if k == 3:
        p = {'request_id': a, 'opt_id': b, 'ven_id': c}
        sent(w, 'oadrCancelOpt', p, p)
    if k == 4:
        p = {'request_id': a, 'registration_id': b, 'ven_id': c}
        sent(w, 'oadrCancelPartyRegistration', p, p)
    if k == 5:
        p = {'request_id': a, 'report_request_id': b, 'ven_id': c, 'report_to_follow': w.flag('follow')}
        n = w.choice('n', 4)
        want = dict(p)
        if n > 0:
            ids = [ident(w, 'c' + str(i)) for i in range(n)]
            p['report_request_id'] = ids
            want['report_request_id'] = ids[0] if n == 1 else ids
        sent(w, 'oadrCancelReport', p, want)
    if k == 6:
        p = {'request_id': a, 'ven_id': b}
        if w.flag('limit?'):
            p['reply_limit'] = w.make('limit', Int(1, 1000))
        sent(w, 'oadrRequestEvent', p, p)


def pending(w, n):
    ids = [ident(w, 'pending' + str(i)) for i in range(n)]
    return [{'report_request_id': x} for x in ids]


@contract('C25', targets=['messaging.create_message', 'messaging.parse_message', 'utils.normalize_dict'], samples=400, budget=150)
def answers(w):
    """Acknowledgements, with the reports that are still pending or cancelled."""
    k = w.choice('type', 7)
    r = response(w)
    a, b = ident(w, 'a'), ident(w, 'b')
    if k == 0:
        p = {'response': r, 'opt_id': a}
        sent(w, 'oadrCanceledOpt', p, p)
    if k == 1:
        p = {'response': r, 'opt_id': a}
        sent(w, 'oadrCreatedOpt', p, p)
    if k == 2:
        p = {'response': r, 'registration_id': a}
        if w.flag('ven'):
            p['ven_id'] = b
        sent(w, 'oadrCanceledPartyRegistration', dict(p, ven_id=None) if 'ven_id' not in p and w.flag('None') else p, p)
    if k == 3:
        if w.flag('no rid'):
            r['request_id'] = None
        p = {'response': r, 'ven_id': a}
        sent(w, 'oadrResponse', p, p)
    if k in (4, 5):
        p = {'response': r, 'pending_reports': pending(w, w.choice('n', 4))}
        if w.flag('ven?'):
            p['ven_id'] = a
        sent(w, 'oadrCanceledReport' if k == 4 else 'oadrCreatedReport', p, p)
    if k == 6:
        if w.flag('no rid'):
            r['request_id'] = None
        p = {'response': r}
        want = dict(p)
        if w.flag('ven?'):
            p['ven_id'] = want['ven_id'] = a
        n = w.choice('n', 4)
        if n > 0:
            ids = [ident(w, 'c' + str(i)) for i in range(n)]
            cr = {'request_id': b, 'report_request_id': ids, 'report_to_follow': w.flag('follow'), 'ven_id': a}
            p['cancel_report'] = cr
            want['cancel_report'] = dict(cr)
            if n == 1:
                want['cancel_report']['report_request_id'] = ids[0]
                if w.flag('one id'):
                    cr['report_request_id'] = ids[0]
        sent(w, 'oadrUpdatedReport', p, want)


@contract('C25', targets=['messaging.create_message', 'messaging.parse_message', 'utils.normalize_dict'], samples=400, budget=150)
def opt_answers(w):
    """oadrCreatedEvent: every opt response arrives, in order, with its own ids."""
    r = response(w)
    p = {'response': r, 'ven_id': ident(w, 'ven')}
    want = dict(p)
    n = w.size('n', 3, 4)
    if n > 0:
        rs = []
        for i in range(n):
            q = 'r' + str(i)
            e = {'response_code': w.make(q + '.code', Int(100, 599)), 'request_id': ident(w, q + '.rid'),
                 'event_id': ident(w, q + '.id'), 'modification_number': w.make(q + '.mod', Int(0, 1000)),
                 'opt_type': w.make(q + '.opt', Enum('optIn', 'optOut'))}
            if w.flag(q + '.text?'):
                e['response_description'] = ident(w, q + '.text')
            rs.append(e)
        p['event_responses'] = rs
        want['event_responses'] = rs
        want['response'] = dict(r)
        want['response']['request_id'] = None
    sent(w, 'oadrCreatedEvent', p, want)


@contract('C25', targets=['messaging.create_message', 'messaging.parse_message', 'utils.normalize_dict'], samples=400, budget=150)
def registrations(w):
    """Registration requests and what the VTN answers to them."""
    if w.flag('request'):
        p = {'request_id': ident(w, 'request'), 'profile_name': w.make('profile', Enum('2.0b', '2.0a')),
             'transport_name': w.make('transport', Enum('simpleHttp', 'xmpp')),
             'report_only': w.flag('report_only'), 'xml_signature': w.flag('xml_signature'),
             'ven_name': ident(w, 'name'), 'http_pull_model': w.flag('pull')}
        if w.flag('ven?'):
            p['ven_id'] = ident(w, 'ven')
        if w.flag('reg?'):
            p['registration_id'] = ident(w, 'reg')
        want = dict(p)
        if w.flag('address?'):
            p['transport_address'] = want['transport_address'] = ident(w, 'address')
        else:
            p['transport_address'] = None
        sent(w, 'oadrCreatePartyRegistration', p, want)
    else:
        p = {'response': response(w), 'vtn_id': ident(w, 'vtn')}
        p['registration_id'] = ident(w, 'reg') if w.flag('reg?') else None
        p['ven_id'] = ident(w, 'ven') if w.flag('ven?') else None
        profiles = []
        for i in range(1 + w.choice('profiles', 3)):
            ts = [{'transport_name': ['simpleHttp', 'xmpp'][(i + j) % 2]} for j in range(1 + w.choice('t' + str(i), 2))]
            profiles.append({'profile_name': ['2.0b', '2.0a', '2.0b'][i], 'transports': ts})
        p['profiles'] = profiles
        if w.flag('freq?'):
            p['requested_oadr_poll_freq'] = seconds(w, 'freq')
        sent(w, 'oadrCreatedPartyRegistration', p, p)


KINDS = ('group_id', 'group_name', 'resource_id', 'ven_id', 'party_id')


def targets(w, name, n):
    """n targets with their kinds in the order in which the schema lists them"""
    ts = []
    kind = 0
    for i in range(n):
        kind = kind + w.choice(name + '.k' + str(i), len(KINDS) - kind)
        ts.append({KINDS[kind]: ident(w, name + str(i))})
    return ts


def by_type(ts):
    d = {}
    for t in ts:
        for k in t:
            if k not in d:
                d[k] = []
            d[k].append(t[k])
    return d


T = ['messaging.create_message', 'messaging.parse_message', 'utils.normalize_dict']


@contract('C25', targets=T, samples=400, budget=150)
def opts(w):
    """oadrCreateOpt for events and for availability, with all targets."""
    p = {'opt_id': ident(w, 'opt'), 'opt_type': w.make('type', Enum('optIn', 'optOut')),
         'opt_reason': w.make('reason', Enum(*enums.OPT_REASON.values)), 'created_date_time': w.make('created', DT()),
         'request_id': ident(w, 'request'), 'ven_id': ident(w, 'ven')}
    want = dict(p)
    if w.flag('mc?'):
        p['market_context'] = want['market_context'] = uri(w, 'mc')
    parts = None
    if w.flag('event'):
        p['event_id'] = want['event_id'] = ident(w, 'event')
        p['modification_number'] = want['modification_number'] = w.make('mod', Int(0, 1000))
    else:
        n = 1 + w.choice('n', 2)
        parts = [objects.VavailabilityComponent(dtstart=w.make('start' + str(i), DT()), duration=seconds(w, 'dur' + str(i)))
                 for i in range(n)]
        p['vavailability'] = objects.Vavailability(components=parts)
        arrive = [{'dtstart': c.dtstart, 'duration': c.duration} for c in parts]
        want['vavailability'] = {'components': {'available': arrive[0] if n == 1 else [{'properties': a} for a in arrive]}}
    ts = targets(w, 't', w.choice('targets', 3))
    p['targets'] = [objects.Target(**t) for t in ts] if w.flag('objects') else ts
    want['targets'] = ts
    want['targets_by_type'] = by_type(ts)
    if w.flag('device class'):
        p['signal_target_mrid'] = ident(w, 'mrid')
        want['device_class'] = {'end_device_asset': {'mrid': p['signal_target_mrid']}}
    sent(w, 'oadrCreateOpt', p, want)


def report_requests(w, n, m):
    out = []
    for i in range(n):
        q = 'rr' + str(i)
        spec = {'report_specifier_id': ident(w, q + '.spec'), 'granularity': seconds(w, q + '.gran'),
                'report_back_duration': seconds(w, q + '.back'),
                'specifier_payloads': [{'r_id': ident(w, q + '.r' + str(j)),
                                        'reading_type': w.make(q + '.rt' + str(j), Enum('Direct Read', 'Mean', 'x-own'))}
                                       for j in range(w.choice(q + '.n', m) + 1)]}
        if w.flag(q + '.iv?'):
            iv = {'dtstart': w.make(q + '.start', DT()), 'duration': seconds(w, q + '.dur')}
            k = w.choice(q + '.extra', 5 if i == 0 else 1)
            if k == 1:
                iv['tolerance'] = {'tolerate': {'startafter': w.make(q + '.tol', Dur(1, 86400, whole=True))}}
            elif k > 1:
                iv[('notification', 'ramp_up', 'recovery')[k - 2]] = w.make(q + '.extra', Dur(1, 86400, whole=True))
            spec['report_interval'] = iv
        out.append({'report_request_id': ident(w, q + '.id'), 'report_specifier': spec})
    return out


@contract('C25', targets=T, samples=400, budget=200)
def requests_for_reports(w):
    """oadrCreateReport and oadrRegisteredReport: every request with its datapoints and intervals."""
    n = w.size('n', 3, 4)
    if w.flag('created'):
        w.assume(n > 0)
        p = {'request_id': ident(w, 'request'), 'ven_id': ident(w, 'ven'), 'report_requests': report_requests(w, n, 2 if n > 1 else 4)}
        sent(w, 'oadrCreateReport', p, p)
    else:
        p = {'response': response(w), 'report_requests': report_requests(w, n, 2)}
        if w.flag('ven?'):
            p['ven_id'] = ident(w, 'ven')
        want = dict(p)
        if n == 0:
            del want['report_requests']
        sent(w, 'oadrRegisteredReport', p, want)


def measurement(w, name, some=(0, 1, 2, 3, 4)):
    """(what is sent, what arrives)"""
    k = some[w.choice(name, len(some))]
    if k == 0:
        return None, None
    scale = w.make(name + '.scale', Enum('none', 'k', 'm', 'M'))
    if k == 1:
        m = {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': scale}
        return objects.Measurement(**m), m
    if k == 2:
        m = {'name': 'customUnit', 'description': ident(w, name + '.text'), 'unit': ident(w, name + '.unit'), 'scale': scale}
        return objects.Measurement(**m), m
    if k == 3:
        m = {'name': 'powerReal', 'description': 'RealPower', 'unit': 'W', 'scale': scale}
        pa = {'hertz': w.make(name + '.hz', Int(0, 60)), 'voltage': w.make(name + '.v', Int(0, 400)), 'ac': w.flag(name + '.ac')}
        return objects.Measurement(power_attributes=objects.PowerAttributes(**pa), **m), dict(m, power_attributes=pa)
    f = w.make(name + '.factor', Int(1, 1000))
    m = {'name': 'pulseCount', 'description': 'pulse count', 'unit': 'count', 'pulse_factor': f}
    return objects.Measurement(**m), m


def description(w, name, m, got, change, extra=0):
    sr = {'min_period': seconds(w, name + '.lo'), 'max_period': seconds(w, name + '.hi'), 'on_change': change}
    rid = ident(w, name + '.r')
    res = ident(w, name + '.res')
    rt = w.make(name + '.rt', Enum('Direct Read', 'Mean'))
    t = w.make(name + '.t', Enum('usage', 'reading', 'x-resourceStatus'))
    d = objects.ReportDescription(r_id=rid, market_context=None, reading_type=rt, report_subject=None,
                                  report_data_source=objects.Target(resource_id=res), report_type=t,
                                  sampling_rate=objects.SamplingRate(**sr), measurement=m)
    want = {'r_id': rid, 'reading_type': rt, 'report_data_source': {'resource_id': res}, 'report_type': t, 'sampling_rate': sr}
    if extra & 1:
        d.market_context = want['market_context'] = uri(w, name + '.mc')
    if extra & 2:
        d.report_subject = objects.Target(end_device_asset=objects.EndDeviceAsset(mrid=ident(w, name + '.mrid')))
        want['report_subject'] = {'end_device_asset': {'mrid': d.report_subject.end_device_asset.mrid}}
    if got is not None:
        want['measurement'] = got
    return d, want


def offer(w, q, ds, duration):
    spec = ident(w, q + '.spec')
    name = w.make(q + '.name', Enum('METADATA_TELEMETRY_USAGE', 'x-own', 'METADATA_HISTORY_USAGE'))
    created = w.make(q + '.created', DT())
    rep = objects.Report(report_specifier_id=spec, report_name=name, report_request_id=0,
                         report_descriptions=[d for d, x in ds], created_date_time=created)
    got = {'report_specifier_id': spec, 'report_name': name, 'report_request_id': 0,
           'report_descriptions': [x for d, x in ds], 'created_date_time': created}
    if duration:
        rep.duration = got['duration'] = seconds(w, q + '.dur')
    return rep, got


def offered(w, rs):
    p = {'request_id': ident(w, 'request'), 'reports': [r for r, x in rs], 'ven_id': ident(w, 'ven')}
    sent(w, 'oadrRegisterReport', p, {'request_id': p['request_id'], 'reports': [x for r, x in rs], 'ven_id': p['ven_id']})


@contract('C25', targets=T + ['preflight.preflight_message'], samples=500, budget=200)
def offered_datapoint(w):
    """oadrRegisterReport: a datapoint as it was described."""
    m, got = measurement(w, 'm')
    d = description(w, 'd', m, got, w.flag('change'), w.choice('extra', 4))
    offered(w, [offer(w, 'p', [d], w.flag('duration'))])


@contract('C25', targets=T + ['preflight.preflight_message'], samples=500, budget=200)
def offered_reports(w):
    """oadrRegisterReport: every report with every datapoint."""
    rs = []
    for i in range(1 + w.choice('n', 3)):
        q = 'p' + str(i)
        ds = []
        for j in range(1 + (w.choice('points', 3) if i == 0 else 0)):
            if j == 2:
                m, got = None, None
            else:
                m, got = measurement(w, q + '.m' + str(j), (0, 1) if i == 0 else (1,))
            ds.append(description(w, q + '.' + str(j), m, got, j == 0))
        rs.append(offer(w, q, ds, i == 1))
    offered(w, rs)


def delivery(w, q, n, some=(0, 1, 2, 3), kinds=2, start=False):
    spec, rr = ident(w, q + '.spec'), ident(w, q + '.rr')
    name = w.make(q + '.name', Enum('TELEMETRY_USAGE', 'x-own', 'HISTORY_USAGE'))
    created = w.make(q + '.created', DT())
    rep = objects.Report(report_specifier_id=spec, report_name=name, report_request_id=rr, created_date_time=created)
    got = {'report_specifier_id': spec, 'report_name': name, 'report_request_id': rr, 'created_date_time': created,
           'report_id': None}
    ivs, wants = [], []
    for j in range(n):
        r = q + '.' + str(j)
        k = w.choice(r + '.k', kinds)
        v = w.make(r + '.int', Int(-1000, 1000)) if k == 0 else w.make(r + '.value', Real(-1000, 1000))
        rid = ident(w, r + '.r')
        t = w.make(r + '.t', DT())
        iv = objects.ReportInterval(dtstart=t, report_payload=objects.ReportPayload(r_id=rid, value=v))
        x = {'dtstart': t, 'report_payload': {'r_id': rid, 'value': v}}
        o = some[w.choice(r + '.o', len(some))]
        if o == 1:
            iv.duration = x['duration'] = seconds(w, r + '.dur')
        if o == 2:
            iv.report_payload.confidence = x['report_payload']['confidence'] = w.make(r + '.conf', Int(0, 100))
        if o == 3:
            iv.report_payload.accuracy = x['report_payload']['accuracy'] = w.make(r + '.acc', Int(0, 100))
        ivs.append(iv)
        wants.append(x)
    if n > 0:
        rep.intervals = ivs
        got['intervals'] = wants
    if start:
        rep.dtstart = got['dtstart'] = w.make(q + '.start', DT())
    return rep, got


def delivered(w, rs):
    p = {'request_id': ident(w, 'request'), 'reports': [r for r, x in rs], 'ven_id': ident(w, 'ven')}
    want = {'request_id': p['request_id'], 'reports': [x for r, x in rs], 'ven_id': p['ven_id']}
    if len(rs) == 0:
        del want['reports']
    sent(w, 'oadrUpdateReport', p, want)


@contract('C25', targets=T, samples=500, budget=200)
def delivered_values(w):
    """oadrUpdateReport: every value arrives with its datapoint and its time."""
    n = w.size('n', 2, 3)
    delivered(w, [delivery(w, 'p', n, start=w.flag('start'))])


@contract('C25', targets=T, samples=500, budget=200)
def delivered_reports(w):
    """oadrUpdateReport: every report arrives, with all of its values and no others."""
    n = w.size('n', 3, 4)
    delivered(w, [delivery(w, 'p' + str(i), w.choice('n' + str(i), 4), (0,), 1) for i in range(n)])


def signal(w, g, durs, some, name=None):
    ivs, iwant = [], []
    for j in range(len(durs)):
        t = w.make(g + '.t' + str(j), DT())
        v = w.make(g + '.v' + str(j), Int(0, 3)) if name == 'SIMPLE' else w.make(g + '.v' + str(j), Real(-100, 100))
        ivs.append(objects.Interval(dtstart=t, duration=durs[j], signal_payload=v))
        iwant.append({'dtstart': t, 'duration': durs[j], 'uid': j, 'signal_payload': v})
    if name is None:
        name = w.make(g + '.name', Enum('LOAD_CONTROL', 'x-own', 'ELECTRICITY_PRICE'))
    typ = w.make(g + '.type', Enum('level', 'delta', 'x-loadControlCapacity'))
    sid = ident(w, g + '.id')
    m, mw = measurement(w, g + '.m', some)
    sig = objects.EventSignal(intervals=ivs, signal_name=name, signal_type=typ, signal_id=sid, measurement=m)
    x = {'intervals': iwant, 'signal_name': name, 'signal_type': typ, 'signal_id': sid}
    if mw is not None:
        x['measurement'] = mw
    return sig, x


def descriptor(w, q, comment=False, test=False):
    d = {'event_id': ident(w, q + '.id'), 'modification_number': w.make(q + '.mod', Int(0, 100)), 'market_context': uri(w, q + '.mc'),
         'event_status': w.make(q + '.status', Enum('far', 'near', 'active', 'completed', 'cancelled')),
         'created_date_time': w.make(q + '.cdt', DT()), 'modification_date_time': w.make(q + '.mdt', DT()),
         'priority': w.make(q + '.prio', Int(0, 10)), 'test_event': test}
    if comment:
        d['vtn_comment'] = ident(w, q + '.comment')
    return d


def make_event(w, q, d, signals, ts, total, period=0):
    ap = objects.ActivePeriod(dtstart=w.make(q + '.start', DT()), duration=total)
    apw = {'dtstart': ap.dtstart, 'duration': total}
    if period == 1:
        ap.ramp_up_period = apw['ramp_up'] = w.make(q + '.ru', Dur(1, 86400, whole=True))
    if period == 2:
        ap.notification_period = apw['notification'] = w.make(q + '.np', Dur(1, 86400, whole=True))
    if period == 3:
        ap.recovery_period = apw['recovery'] = w.make(q + '.rp', Dur(1, 86400, whole=True))
    if period == 4:
        ap.tolerance = apw['tolerance'] = {'tolerate': {'startafter': w.make(q + '.tol', Dur(1, 86400, whole=True))}}
    rr = w.make(q + '.rr', Enum('always', 'never'))
    ev = w.new(objects.Event, event_descriptor=w.new(objects.EventDescriptor, **dict({'vtn_comment': None}, **d)),
               event_signals=[s for s, x in signals], targets=[objects.Target(**t) for t in ts], targets_by_type=by_type(ts),
               active_period=ap, response_required=rr)
    return ev, {'event_descriptor': d, 'active_period': apw, 'event_signals': [x for s, x in signals], 'targets': ts,
                'targets_by_type': by_type(ts), 'response_required': rr}


def distributed(w, es, resp=False):
    p = {'request_id': ident(w, 'request'), 'vtn_id': ident(w, 'vtn'), 'events': [e for e, x in es]}
    res = {'request_id': p['request_id'], 'vtn_id': p['vtn_id'], 'events': [x for e, x in es]}
    if resp:
        p['response'] = res['response'] = response(w)
    if len(es) == 0:
        del res['events']
    sent(w, 'oadrDistributeEvent', p, res)


@contract('C25', targets=T + ['preflight.preflight_message'], samples=400, budget=200)
def distributed_event(w):
    """oadrDistributeEvent: an event with its descriptor, its period and its targets."""
    dur = seconds(w, 'dur', 86400)
    s = signal(w, 's', [dur], (0,), 'LOAD_CONTROL')
    if w.flag('aspect'):
        ts = targets(w, 't', w.choice('targets', 4))
        d = descriptor(w, 'e')
        period = 0
    else:
        ts = targets(w, 't', 1)
        d = descriptor(w, 'e', w.flag('comment'), w.flag('test'))
        period = w.choice('period', 5)
    distributed(w, [make_event(w, 'e', d, [s], ts, dur, period)], False)


@contract('C25', targets=T + ['preflight.preflight_message'], samples=400, budget=200)
def distributed_signals(w):
    """oadrDistributeEvent: every signal with its intervals, levels and measurement."""
    durs = [seconds(w, 'd' + str(j), 86400) for j in range(1 + w.choice('n', 2))]
    total = timedelta(0)
    for x in durs:
        total = total + x
    d = descriptor(w, 'e')
    k = w.choice('signals', 3)
    ss = []
    for i in range(1 + k):
        sig, x = signal(w, 's' + str(i), durs, (0, 1, 2, 3, 4) if k == 0 else (0, 1), 'SIMPLE' if i == 1 else None)
        if k == 0 or i == 1:
            if i == 1 or w.flag('cv?' + str(i)):
                sig.current_value = w.make('cv' + str(i), Int(0, 3))
                x['current_value'] = w.ite(i == 1 and d['event_status'] != 'active', 0, sig.current_value)
        ss.append((sig, x))
    distributed(w, [make_event(w, 'e', d, ss, [{'ven_id': ident(w, 'v')}], total)])


@contract('C25', targets=T + ['preflight.preflight_message'], samples=400, budget=200)
def distributed_events(w):
    """oadrDistributeEvent: all events, in order, each with its own contents."""
    n = w.size('n', 3, 4)
    es = []
    for i in range(n):
        q = 'e' + str(i)
        dur = seconds(w, q + '.d', 86400)
        es.append(make_event(w, q, descriptor(w, q), [signal(w, q + '.s', [dur], (0, 1), 'LOAD_CONTROL')],
                             targets(w, q + '.t', 1 if i == 0 else 0), dur))
    distributed(w, es, w.flag('response'))


@contract('C25', targets=T + ['preflight.preflight_message'], samples=400, budget=200)
def distributed_dict(w):
    """oadrDistributeEvent: an event that is a dict, with and without its optional parts."""
    dur = seconds(w, 'dur', 86400)
    t = w.make('t', DT())
    d = {'event_id': ident(w, 'id'), 'modification_number': w.make('mod', Int(0, 100)), 'market_context': uri(w, 'mc'),
         'event_status': w.make('status', Enum('far', 'active', 'cancelled')), 'created_date_time': w.make('cdt', DT())}
    if w.flag('priority?'):
        d['priority'] = w.make('prio', Int(0, 10))
    if w.flag('modified?'):
        d['modification_date_time'] = w.make('mdt', DT())
    if w.flag('test?'):
        d['test_event'] = w.flag('test')
    if w.flag('comment?'):
        d['vtn_comment'] = ident(w, 'comment')
    iv = {'duration': dur, 'signal_payload': w.make('v', Int(-5, 100))}
    if w.flag('start?'):
        iv['dtstart'] = w.make('istart', DT())
    sig = {'intervals': [iv], 'signal_name': 'LOAD_CONTROL', 'signal_type': 'level', 'signal_id': ident(w, 'sid')}
    target = {'ven_id': ident(w, 'ven')}
    ev = {'event_descriptor': d, 'event_signals': [sig], 'active_period': {'dtstart': t, 'duration': dur}, 'targets': [target]}
    got = {'event_descriptor': dict(d), 'event_signals': [dict(sig, intervals=[dict(iv, uid=0)])],
           'active_period': {'dtstart': t, 'duration': dur}, 'targets': [target], 'targets_by_type': {'ven_id': [target['ven_id']]},
           'response_required': 'always'}
    if w.flag('response required?'):
        ev['response_required'] = got['response_required'] = 'never'
    p = {'request_id': ident(w, 'request'), 'vtn_id': ident(w, 'vtn')}
    sent(w, 'oadrDistributeEvent', dict(p, events=[ev]), dict(p, events=[got]))
