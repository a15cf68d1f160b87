"""C10 registration, C11 report registration and C12 routing of report data, on the VTN."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums
from openleadr.service import EventService, PollService, ReportService, RegistrationService

VEN = 'ven1'
PARAMS = ('ven_id', 'resource_id', 'measurement', 'unit', 'scale', 'min_sampling_interval', 'max_sampling_interval')


# ---------------------------------------------------------------- C10
@contract('C10', targets=['service.registration_service.RegistrationService.create_party_registration'], samples=250)
def create_registration(w):
    """The VEN is told the ids the application gave it, and is told none if it was refused."""
    freq = w.make('freq', Dur())
    s = RegistrationService('vtn', poll_freq=freq)
    k = w.choice('result', 7)
    ven = w.make('ven', Id())
    reg = w.make('reg', Id())
    result = [False, None, (ven, reg), [ven, reg], (ven,), (ven, reg, 'x'), ()][k]
    h = w.cb('handler', fn=lambda payload: result)
    s.on_create_party_registration = h
    payload = {'profile_name': w.make('profile', Id()), 'transport_name': w.make('transport', Id()), 'ven_name': 'x',
               'request_id': 'r'}
    t, p = w.call(s.create_party_registration, payload)
    w.check('asked once', w.all_(len(h.calls) == 1, len(h.finished) == 1, w.same(h.calls[0][0][0], payload)))
    w.check('answered', t == 'oadrCreatedPartyRegistration')
    if k in (2, 3):
        w.check('the ids of the application', w.all_(p['ven_id'] == ven, p['registration_id'] == reg))
    else:
        w.check('refused: no registration', w.all_('registration_id' not in p, p.get('ven_id') is None))
    w.check('the profile asked for', w.all_(len(p['profiles']) == 1,
            p['profiles'][0]['profile_name'] == payload['profile_name'],
            p['profiles'][0]['transports'][0]['transport_name'] == payload['transport_name']))
    w.check('the poll frequency of this VTN', p['requested_oadr_poll_freq'] == freq)


@contract('C10', targets=['service.registration_service.RegistrationService.query_registration'], samples=100)
def query_registration(w):
    """What the application says about the VTN, or what it is."""
    freq = w.make('freq', Dur())
    s = RegistrationService('vtn', poll_freq=freq)
    answer = ('oadrCreatedPartyRegistration', {'x': 1})
    own = w.choice('own', 2) == 1
    q = w.cb('query', fn=lambda payload: answer)
    if own:
        s.on_query_registration = q
    t, p = w.call(s.query_registration, {'request_id': 'r'})
    w.check('answered', t == 'oadrCreatedPartyRegistration')
    if own:
        w.check('the application answers', w.all_(p['x'] == 1, len(q.calls) == 1))
    else:
        w.check('by default: this VTN', w.all_(p['requested_oadr_poll_freq'] == freq, p['request_id'] == 'r', len(p['profiles']) == 1,
                                               p['profiles'][0]['transports'][0]['transport_name'] == 'simpleHttp',
                                               p['profiles'][0]['profile_name'] == '2.0b', 'registration_id' not in p))


@contract('C26', 'C10', targets=['service.registration_service.RegistrationService.cancel_party_registration'], samples=100)
def vtn_cancel_registration(w):
    """A VEN that leaves is told so: by the application, or on its behalf."""
    s = RegistrationService('vtn', poll_freq=timedelta(seconds=10))
    k = w.choice('result', 4)
    done = [('oadrCanceledPartyRegistration', {'y': 1}), None, None, ('oadrResponse', {'ven_id': VEN})][k]
    c = w.cb('cancel', fn=lambda payload: done)
    if k < 2 or k == 3:
        s.on_cancel_party_registration = c
    reg = w.make('reg', Id())
    ven = w.make('ven', Id())
    pay = {'request_id': 'r', 'registration_id': reg, 'ven_id': ven}
    if w.flag('anonymous'):
        # the VEN's id may be left out of this message
        del pay['ven_id']
    r = w.call(s.cancel_party_registration, pay)
    if k != 2:
        w.check('the application decides', w.all_(len(c.calls) == 1, len(c.finished) == 1, w.same(c.calls[0][0][0], pay)))
    if done is not None:
        w.check('and answers', w.same(r, done))
    else:
        w.check('confirmed', w.all_(r is not None, r is not None and r[0] == 'oadrCanceledPartyRegistration'))
        w.check('its registration', w.all_(w.eq(r[1]['registration_id'], reg), w.eq(r[1].get('ven_id'), pay.get('ven_id'))))


# ---------------------------------------------------------------- C11
def description(w, name, r_id, usage, sparse=False):
    """sparse: one of the elements that may be left out is left out"""
    d = full_description(w, name, r_id, usage)
    if sparse:
        k = w.choice(name + '.without', 5 if usage else 4)
        if k == 1: del d['report_data_source']
        if k == 2: d['report_data_source'] = None
        if k == 3: del d['sampling_rate']
        if k == 4: del d['measurement']
    return d


def full_description(w, name, r_id, usage):
    d = {'r_id': r_id, 'reading_type': w.make(name + '.reading', Id()),
         'report_data_source': {'resource_id': w.make(name + '.resource', Id())},
         'sampling_rate': {'min_period': w.make(name + '.min', Dur()), 'max_period': w.make(name + '.max', Dur())}}
    if usage:
        d['measurement'] = {'description': w.make(name + '.what', Id()), 'unit': w.make(name + '.unit', Id()),
                            'scale': w.make(name + '.scale', Opt(Id()))}
    return d


def consume(values):
    pass


def offer(w, name, kind):
    """what the application answers for one datapoint: (answer, is it a request?)"""
    si = w.make(name + '.si', Dur())
    ri = w.make(name + '.ri', Dur())
    cb = w.cb(name + '.cb')
    if kind == 0: return None, cb, si, ri, False
    if kind == 1: return (cb, si), cb, si, si, True
    if kind == 2: return (cb, si, ri), cb, si, ri, True
    if kind == 3: return 'junk', cb, si, ri, False
    if kind == 4: return ('not callable', si), cb, si, ri, False
    if kind == 5: return (cb, 'no interval'), cb, si, ri, False
    if kind == 6: return (cb,), cb, si, ri, False
    return (cb, si, 'no interval'), cb, si, ri, False


NAMES = ('METADATA_TELEMETRY_USAGE', 'METADATA_TELEMETRY_STATUS', 'METADATA_HISTORY_USAGE', 'METADATA_x-other')


@contract('C11', targets=['service.report_service.ReportService.register_report', 'utils.validate_report_request_tuples',
                          'utils.find_by', 'utils.gather_if_required'], samples=500, budget=150, lists=False)
def register_compact(w):
    """Every datapoint the application wants is requested, and nothing else."""
    s = ReportService('vtn')
    usage = w.choice('usage', 2) == 0
    first = w.choice('first', 3)
    n = 1 + w.size('n', 2, 3)
    ids = ['r' + str(i) for i in range(n)]
    ds = [description(w, 'd' + str(i), ids[i], usage, i == n - 1) for i in range(n)]
    skipped = {'report_name': NAMES[2 + first] if first < 2 else NAMES[0], 'report_specifier_id': 'skipped',
               'report_descriptions': [description(w, 's', 'r0', True)]}
    report = {'report_name': NAMES[0 if usage else 1], 'report_specifier_id': w.make('spec', Id()),
              'report_descriptions': ds}
    offers = [offer(w, 'o' + str(i), w.choice('kind' + str(i), 8)) for i in range(n)]
    table = {}
    for i in range(n):
        table[w.text(i)] = offers[i]
    order = []

    def register(ven_id=None, resource_id=None, measurement=None, unit=None, scale=None, min_sampling_interval=None,
                 max_sampling_interval=None):
        k = len(order)
        order.append((ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval))
        if first == 2:
            k = k - 1
        return offers[k][0] if k >= 0 else None

    h = w.cb('on_register_report', fn=register, mode=('sync' if w.choice('async', 2) == 0 else 'async'), signature=PARAMS)
    s.on_register_report = h
    payload = {'ven_id': VEN, 'request_id': 'r', 'reports': [skipped, report]}
    t, p = w.call(s.register_report, payload)
    w.check('answered', t == 'oadrRegisteredReport')
    extra = 1 if first == 2 else 0
    w.check('asked once about every datapoint', len(order) == n + extra)
    for i in range(n):
        o = order[i + extra]
        d = ds[i]
        src, rate, m = d.get('report_data_source') or {}, d.get('sampling_rate') or {}, d.get('measurement') or {}
        w.check('with what is on offer', w.all_(o[0] == VEN, w.eq(o[1], src.get('resource_id')),
                                                w.eq(o[5], rate.get('min_period')), w.eq(o[6], rate.get('max_period'))))
        if usage:
            w.check('and its unit', w.all_(w.eq(o[2], m.get('description')), w.eq(o[3], m.get('unit')), w.eq(o[4], m.get('scale'))))
        else:
            w.check('a status', w.all_(w.eq(o[2], 'Status'), o[3] is None, o[4] is None))
    wanted = [i for i in range(n) if offers[i][4]]
    requests = p['report_requests']
    w.check('one request for the report, if anything is wanted', len(requests) == (1 if len(wanted) > 0 else 0))
    w.check('what is requested is remembered', w.same(s.requested_reports[VEN], requests))
    w.check('no other callbacks', len(s.report_callbacks) == len(wanted))
    if len(wanted) > 0:
        rq = requests[0]
        spec = rq.report_specifier
        w.check('it names the report', w.eq(spec.report_specifier_id, report['report_specifier_id']))
        w.check('it asks for the wanted datapoints', len(spec.specifier_payloads) == len(wanted))
        for k in range(len(wanted)):
            i = wanted[k]
            w.check('every wanted datapoint', w.all_(spec.specifier_payloads[k].r_id == ids[i],
                    w.eq(spec.specifier_payloads[k].reading_type, ds[i]['reading_type'])))
            w.check('its data will go to its callback',
                    w.same(s.report_callbacks[(rq.report_request_id, ids[i])], offers[i][1]))
            w.check('sampled at least as often as asked', spec.granularity <= offers[i][2])
        w.check('at a rate that was asked for', w.any_(*[spec.granularity == offers[i][2] for i in wanted]))
        w.check('reported at an interval that was asked for',
                w.any_(*[spec.report_back_duration == offers[i][3] for i in wanted]))
        w.check('callable', True)
    names = [r['report_name'] for r in s.registered_reports[VEN]]
    w.check('the offered reports are known', w.all_(len(names) == 2, names[1] == report['report_name'][9:]))
    w.check('the message is left alone', report['report_name'] == NAMES[0 if usage else 1])


@contract('C11', targets=['service.report_service.ReportService.register_report', 'utils.validate_report_request_tuples'],
          samples=400, budget=150, lists=False)
def register_full(w):
    """In full mode the application names the datapoints itself."""
    s = ReportService('vtn')
    n = 2
    ids = ['r0', 'r1', 'r2']
    usage = w.choice('usage', 2) == 0
    ds = [description(w, 'd' + str(i), ids[i], usage) for i in range(3)]
    report = {'report_name': NAMES[0 if usage else 1], 'report_specifier_id': w.make('spec', Id()),
              'report_descriptions': ds}
    history = {'report_name': NAMES[2], 'report_specifier_id': 'skipped', 'report_descriptions': []}
    kinds = [w.choice('kind' + str(i), 8) for i in range(n)]
    offers = [offer(w, 'o' + str(i), kinds[i]) for i in range(n)]
    whole = w.choice('whole', 3)
    which = [1, 2]
    rows = []
    for i in range(n):
        a = offers[i][0]
        rows.append((ids[which[i]],) + a if isinstance(a, tuple) else a)
    result = [rows, None, 'junk'][whole]
    h = w.cb('on_register_report', fn=lambda report: result, signature=('report',))
    s.on_register_report = h
    t, p = w.call(s.register_report, {'ven_id': VEN, 'request_id': 'r', 'reports': [history, report]})
    w.check('asked once, about the report', w.all_(len(h.calls) == 1, len(h.finished) == 1,
                                                   w.same(h.calls[0][0][0], report)))
    wanted = [i for i in range(n) if offers[i][4]] if whole == 0 else []
    requests = p['report_requests']
    w.check('one request for the report, if anything is wanted', len(requests) == (1 if len(wanted) > 0 else 0))
    w.check('no other callbacks', len(s.report_callbacks) == len(wanted))
    if len(wanted) > 0:
        rq = requests[0]
        spec = rq.report_specifier
        w.check('it names the report', w.eq(spec.report_specifier_id, report['report_specifier_id']))
        w.check('it asks for the wanted datapoints', len(spec.specifier_payloads) == len(wanted))
        for k in range(len(wanted)):
            i = wanted[k]
            r = ids[which[i]]
            w.check('every wanted datapoint', w.all_(spec.specifier_payloads[k].r_id == r,
                    w.eq(spec.specifier_payloads[k].reading_type, ds[which[i]]['reading_type'])))
            w.check('its data will go to its callback', w.same(s.report_callbacks[(rq.report_request_id, r)], offers[i][1]))
            w.check('sampled at least as often as asked', spec.granularity <= offers[i][2])
        w.check('at a rate that was asked for', w.any_(*[spec.granularity == offers[i][2] for i in wanted]))


@contract('C11', targets=['service.report_service.ReportService.register_report'], samples=60)
def register_nothing(w):
    s = ReportService('vtn')
    h = w.cb('on_register_report', signature=PARAMS)
    s.on_register_report = h
    pay = {'ven_id': VEN, 'request_id': 'r'}
    if w.choice('none', 2) == 1:
        pay['reports'] = None
    t, p = w.call(s.register_report, pay)
    w.check('an empty answer', w.all_(t == 'oadrRegisteredReport', len(p['report_requests']) == 0, len(h.calls) == 0))


@contract('C11', targets=['service.report_service.ReportService.created_report',
                          'service.report_service.ReportService.on_created_report'], samples=200, lists=False)
def created_report(w):
    """The VTN keeps track of the reports that the VEN has created."""
    s = ReportService('vtn')
    n = w.size('n', 3)
    ids = [w.make('id' + str(i), Id()) for i in range(n)]
    spec = objects.ReportSpecifier(report_specifier_id='x', granularity=timedelta(0), specifier_payloads=[])
    if w.flag('asked'):
        s.requested_reports[VEN] = [objects.ReportRequest(report_request_id=w.make('rq', Id()), report_specifier=spec)]
    s.created_reports['other'] = ['zz']
    had = w.choice('had', 2) == 1
    if had:
        s.created_reports[VEN] = ['old']
    payload = {'ven_id': VEN}
    if n > 0 or w.choice('empty', 2) == 1:
        payload['pending_reports'] = [{'report_request_id': i} for i in ids] or None
    w.call(s.created_report, payload)
    got = s.created_reports[VEN]
    k = 1 if had else 0
    w.check('all confirmed reports are known', len(got) == n + k)
    for i in range(n):
        w.check('every confirmed report is known', w.eq(got[i + k], ids[i]))
    w.check('those of others stay', w.all_(len(s.created_reports['other']) == 1))


# ---------------------------------------------------------------- C12
@contract('C12', targets=['service.report_service.ReportService.update_report', 'utils.group_by'], samples=500,
          budget=120, lists=False)
def route_report_data(w):
    """Every value reaches the callback that was registered for its report request and datapoint, in order, once."""
    s = ReportService('vtn')
    n = w.size('n', 4, 5)
    rq = w.make('rq', Id())
    other_rq = w.make('rq2', Id())
    keys = [(rq, 'r0'), (rq, 'r1'), (other_rq, 'r0')]
    w.assume(w.not_(rq == other_rq))
    cbs = [w.cb('cb' + str(i)) for i in range(3)]
    upd = w.cb('on_update_report')
    s.on_update_report = upd
    for i in range(3):
        s.report_callbacks[keys[i]] = cbs[i]
    which = [w.choice('i' + str(i), 3) for i in range(n)]
    vals = [w.make('v' + str(i), Real()) for i in range(n)]
    dts = [w.make('t' + str(i), DT()) for i in range(n)]
    pays = [{'r_id': ['r0', 'r1', 'r9'][which[i]], 'value': vals[i]} for i in range(n)]
    # datapoints may share an interval, and a status takes the place of a value
    if n > 1 and w.choice('status', 2) == 1:
        vals[1] = {'online': w.flag('online'), 'manual_override': False}
        pays[1] = {'r_id': pays[1]['r_id'], 'payload_resource_status': vals[1]}
    ivs = [{'dtstart': dts[i], 'report_payload': pays[i]} for i in range(n)]
    if n > 1 and w.choice('shared', 2) == 1:
        dts[1] = dts[0]
        ivs = [{'dtstart': dts[0], 'duration': timedelta(0), 'report_payload': pays[:2]}] + ivs[2:]
    sent_rq = w.make('sent', Id())
    t, p = w.call(s.update_report, {'ven_id': VEN, 'reports': [{'report_request_id': sent_rq, 'intervals': ivs}]})
    w.check('confirmed', t == 'oadrUpdatedReport')
    for c in range(3):
        mine = w.eq(keys[c][0], sent_rq)
        idx = [i for i in range(n) if ['r0', 'r1', 'r9'][which[i]] == keys[c][1]]
        calls = cbs[c].calls
        if mine and len(idx) > 0:
            w.check('its callback is called once', w.all_(len(calls) == 1, len(cbs[c].finished) == 1))
            got = calls[0][0][0]
            w.check('with all values', len(got) == len(idx))
            for k in range(len(idx)):
                w.check('in order', w.all_(got[k][0] == dts[idx[k]], w.eq(got[k][1], vals[idx[k]])))
        else:
            w.check('no other callback is called', len(calls) == 0)
    w.check('not given to the generic handler', len(upd.calls) == 0)


@contract('C12', targets=['service.report_service.ReportService.update_report'], samples=200, lists=False)
def route_without_callbacks(w):
    """Without any callback, every report goes to on_update_report; several reports in one message are all handled."""
    s = ReportService('vtn')
    n = w.size('n', 3, 4)
    upd = w.cb('on_update_report')
    s.on_update_report = upd
    reps = [{'report_request_id': w.make('rq' + str(i), Id()), 'intervals': []} for i in range(n)]
    w.call(s.update_report, {'ven_id': VEN, 'reports': reps})
    w.check('each report once', w.all_(len(upd.calls) == n, len(upd.finished) == n))
    for i in range(n):
        w.check('in order', w.same(upd.calls[i][0][0], reps[i]))


@contract('C12', targets=['service.report_service.ReportService.update_report'], samples=200, lists=False)
def route_several_reports(w):
    """Data of several reports in one message is kept apart."""
    s = ReportService('vtn')
    cbs = [w.cb('cb' + str(i)) for i in range(2)]
    rqs = ['q0', 'q1']
    r = w.make('r', Id())
    for i in range(2):
        s.report_callbacks[(rqs[i], r)] = cbs[i]
    a, b = w.make('a', Real()), w.make('b', Real())
    t = w.make('t', DT())
    first = w.choice('first', 2)
    empty = w.choice('empty', 3)
    reps = [{'report_request_id': rqs[first], 'intervals': [{'dtstart': t, 'report_payload': {'r_id': r, 'value': a}}]},
            {'report_request_id': rqs[1 - first], 'intervals': [{'dtstart': t, 'report_payload': {'r_id': r, 'value': b}}]}]
    # one that holds nothing changes nothing
    if empty == 1: reps.insert(1, {'report_request_id': 'q0'})
    if empty == 2: reps.insert(0, {'report_request_id': 'q1', 'intervals': None})
    w.call(s.update_report, {'ven_id': VEN, 'reports': reps})
    for i in range(2):
        w.check('once each', len(cbs[i].calls) == 1)
        got = cbs[i].calls[0][0][0]
        w.check('its own data', w.all_(len(got) == 1, got[0][1] == (a if i == first else b)))


# ---------------------------------------------------------------- C29
@contract('C29', 'C10', 'C11', targets=['service.registration_service.RegistrationService.on_create_party_registration',
                          'service.report_service.ReportService.on_register_report',
                          'service.report_service.ReportService.registered_report',
                          'service.event_service.EventService.on_request_event',
                          'service.poll_service.PollService.on_poll'], samples=100)
def without_handlers(w):
    """Where the application has no handler nothing is granted: nobody is registered, no report is requested, no event sent."""
    k = w.choice('message', 5)
    if k == 0:
        s = RegistrationService('vtn', poll_freq=timedelta(seconds=10))
        t, p = w.call(s.create_party_registration, {'profile_name': '2.0b', 'transport_name': 'simpleHttp', 'ven_name': w.make('n', Id()),
                                                    'request_id': 'r'})
        w.check('not registered', w.all_(t == 'oadrCreatedPartyRegistration', p.get('registration_id') is None, p.get('ven_id') is None))
    elif k == 1:
        s = ReportService('vtn')
        usage = w.flag('usage')
        report = {'report_name': NAMES[0 if usage else 1], 'report_specifier_id': w.make('spec', Id()),
                  'report_descriptions': [description(w, 'd', 'r0', usage)]}
        t, p = w.call(s.register_report, {'ven_id': VEN, 'request_id': 'r', 'reports': [report]})
        w.check('no report is requested', w.all_(t == 'oadrRegisteredReport', len(p.get('report_requests') or []) == 0))
    elif k == 2:
        s = EventService('vtn', polling_method='external')
        r = w.call(s.request_event, {'ven_id': VEN, 'request_id': 'r'})
        w.check('no event', r is None or r[0] in ('oadrDistributeEvent', 'oadrResponse') and not r[1].get('events'))
    elif k == 3:
        ev = EventService('vtn', polling_method='external')
        s = PollService('vtn', polling_method='external', event_service=ev)
        r = w.call(s.poll, {'ven_id': VEN})
        w.check('nothing to do', w.any_(r is None, r is not None and r[0] == 'oadrResponse'))
    else:
        s = ReportService('vtn')
        own = w.flag('own')
        h = w.cb('registered')
        if own:
            s.on_registered_report = h
        pay = {'ven_id': VEN, 'request_id': 'r', 'report_requests': []}
        r = w.call(s.registered_report, pay)
        w.check('acknowledged', r is None)
        w.check('the handler is called', w.all_(len(h.calls) == (1 if own else 0), len(h.finished) == (1 if own else 0)))


@contract('C11', targets=['utils.gather_if_required', 'utils.await_if_required'])
def gathered_results(w):
    """Plain and coroutine answers, mixed in any way, come out in the order they went in."""
    if w.choice('none', 2) == 0:
        w.check('nothing stays nothing', w.call('openleadr.utils.gather_if_required', None) is None)
        return
    n = w.size('n', 3, 4)
    vals = [w.make('v' + str(i), Int(0, 100)) for i in range(n)]
    async def later(v):
        return v
    kinds = [w.choice('k' + str(i), 2) for i in range(n)]
    arg = []
    for i in range(n):
        if kinds[i] == 0:
            arg.append(vals[i])
        else:
            arg.append(later(vals[i]))
    r = w.call('openleadr.utils.gather_if_required', arg)
    w.check('one result each', len(r) == n)
    for i in range(n):
        w.check('in order', r[i] == vals[i])
