"""The objects the application builds: defaults, validations and what is derived (C23, C26, C20)."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums, preflight
from contracts.c_create import interval, spans
from contracts.c_events import stub_status
from contracts.c_time import spec_status

NO_TARGET = dict(group_id=None, group_name=None, resource_id=None, party_id=None, aggregated_p_node=None,
                 end_device_asset=None, meter_asset=None, p_node=None, service_area=None, service_delivery_point=None,
                 service_location=None, transport_interface=None)


@contract('C23', targets=['objects.EventDescriptor.__post_init__', 'objects.EventDescriptor.__init__'], samples=200)
def event_descriptor_defaults(w):
    """A descriptor keeps what it is given; the times default to now, the modification number to 0."""
    now = w.freeze()
    mdt = w.make('modified', Opt(DT()))
    cdt = w.make('created', Opt(DT()))
    num = w.make('number', Opt(Int(0, 100)))
    eid = w.make('id', Id())
    st = w.make('status', Enum('far', 'near', 'active', 'completed', 'cancelled'))
    mc = w.make('mc', Id())
    kw = {}
    if w.choice('more', 2) == 1:
        kw = dict(priority=w.make('priority', Int(0, 9)), test_event=w.flag('test'), vtn_comment=w.make('comment', Opt(Id())))
    if mdt is not None: kw['modification_date_time'] = mdt
    if cdt is not None: kw['created_date_time'] = cdt
    d = w.call(objects.EventDescriptor, event_id=eid, modification_number=num, market_context=mc, event_status=st, **kw)
    w.check('times', w.all_(d.modification_date_time == (now if mdt is None else mdt),
                            d.created_date_time == (now if cdt is None else cdt)))
    w.check('modification number', d.modification_number == (0 if num is None else num))
    w.check('the rest as given', w.all_(d.event_id == eid, d.event_status == st, d.market_context == mc,
                                        d.priority == kw.get('priority', 0), w.eq(d.test_event, kw.get('test_event', False)),
                                        w.eq(d.vtn_comment, kw.get('vtn_comment'))))


@contract('C23', 'C20', targets=['objects.Event.__post_init__', 'objects.Event.__init__'], samples=300)
def event_object_period(w):
    """An event without an active period gets the one that spans the intervals of all its signals, and its status is
    the one of that moment, except that a cancelled event stays cancelled."""
    now = w.freeze()
    stub_status(w, now)
    ns = 1 + w.choice('signals', 2)
    ivs = []
    sigs = []
    for k in range(ns):
        n = 1 + w.choice('n' + str(k), 2)
        own = [interval(w, 's' + str(k) + '.' + str(j), w.choice('as_obj' + str(k), 2) == 1) for j in range(n)]
        ivs = ivs + own
        sigs.append(w.new(objects.EventSignal, intervals=own, signal_name='SIMPLE', signal_type='level', signal_id='s' + str(k),
                          current_value=None, targets=None, targets_by_type=None, measurement=None))
    given = w.choice('period', 2) == 1
    kw = {}
    if given:
        kw['active_period'] = w.new(objects.ActivePeriod, dtstart=w.make('ps', DT()), duration=w.make('pd', Dur()), tolerance=None,
                                    notification_period=None, ramp_up_period=w.make('ramp', Opt(Dur())), recovery_period=None)
    st = w.make('status', Enum('far', 'completed', 'cancelled'))
    ed = w.new(objects.EventDescriptor, event_id='e', modification_number=3, market_context='m', event_status=st)
    rr = w.make('rr', Enum('always', 'never'))
    ts = [{'ven_id': 'v'}]
    e = w.call(objects.Event, event_descriptor=ed, event_signals=sigs, targets=ts, response_required=rr, **kw)
    if given: w.check('a given active period is kept', w.same(e.active_period, kw['active_period']))
    else: w.check('the active period spans the intervals', spans(w, ivs, e.active_period))
    p = e.active_period
    w.check('the status is the current one',
            e.event_descriptor.event_status == w.ite(st == 'cancelled', 'cancelled',
                                                     spec_status(w, now, p.dtstart, p.duration, p.ramp_up_period)))
    w.check('the rest as given', w.all_(w.same(e.event_descriptor, ed), ed.event_id == 'e', ed.modification_number == 3,
                                        e.response_required == rr, w.same(e.targets, ts), len(e.event_signals) == ns,
                                        *[w.same(a, b) for a, b in zip(e.event_signals, sigs)]))


@contract('C26', targets=['objects.Opt.__post_init__', 'objects.Opt.__init__', 'enums.Enum.values'], samples=600)
def opt_object(w):
    """An opt the schema has no words for is refused; a valid one keeps what it was given and gets its defaults."""
    now = w.freeze()
    typ = w.choice('type', 2)
    typ = w.make('t', Enum('optIn', 'optOut')) if typ == 0 else w.make('bt', Id(pool=['optin', 'in', 'x-opt'], avoid=('optIn', 'optOut')))
    k = w.choice('reason', 2)
    reason = w.make('r', Enum(*enums.OPT_REASON.values)) if k == 0 else \
        w.make('br', Id(pool=['economy', 'x-economic'], avoid=tuple(enums.OPT_REASON.values)))
    mk = w.choice('mrid', 4)
    MR = ('Thermostat', 'x-own', 'thermostat', 'y-x-own')
    mrid = None if mk == 0 else MR[w.choice('m', 4)]
    evid = w.make('event', Opt(Id()))
    va = None
    if w.choice('avail', 2) == 1:
        va = w.new(objects.Vavailability, components=[w.new(objects.VavailabilityComponent, dtstart=w.make('vs', DT()), duration=w.make('vd', Dur()))])
    cdt = w.make('created', Opt(DT()))
    num = w.make('number', Opt(Int(0, 100)))
    oid = w.make('id', Opt(Id()))
    mc = w.make('mc', Opt(Id()))
    ts = [{'ven_id': w.make('tv', Id())}]
    o = w.try_call(objects.Opt, opt_type=typ, opt_reason=reason, opt_id=oid, created_date_time=cdt, event_id=evid, modification_number=num,
                   vavailability=va, targets=ts, market_context=mc, signal_target_mrid=mrid)
    ok_type = w.any_(typ == 'optIn', typ == 'optOut')
    ok_reason = w.any_(*[reason == v for v in ('economic', 'emergency', 'mustRun', 'notParticipating', 'outageRunStatus', 'overrideStatus',
                                               'participating', 'x-schedule')])
    ok_mrid = mrid is None or mrid == 'Thermostat' or mrid == 'x-own'
    if w.all_(ok_type, ok_reason, ok_mrid, (evid is None) != (va is None)):
        w.check('accepted', o.raised is None)
        r = o.value
        w.check('as given', w.all_(r.opt_type == typ, r.opt_reason == reason, w.eq(r.opt_id, oid), w.eq(r.event_id, evid),
                                   w.same(r.vavailability, va), w.same(r.targets, ts), w.eq(r.market_context, mc),
                                   w.eq(r.signal_target_mrid, mrid)))
        w.check('defaults', w.all_(r.created_date_time == (now if cdt is None else cdt), r.modification_number == (0 if num is None else num)))
    else:
        w.check('refused', o.is_a(ValueError))


@contract('C30', 'C33', targets=['objects.Report.__post_init__'], samples=100)
def report_object(w):
    now = w.freeze()
    cdt = w.make('created', Opt(DT()))
    rds = None if w.choice('rds', 2) == 0 else [w.new(objects.ReportDescription, r_id=w.make('rid', Id()))]
    r = w.call(objects.Report, report_specifier_id=w.make('s', Id()), report_name=w.make('n', Id()), created_date_time=cdt, report_descriptions=rds)
    w.check('created', r.created_date_time == (now if cdt is None else cdt))
    w.check('descriptions', len(r.report_descriptions) == (0 if rds is None else 1))
    if rds is not None: w.check('kept', w.same(r.report_descriptions[0], rds[0]))
    r2 = w.call(objects.Report, report_specifier_id='a', report_name='b')
    r2.report_descriptions.append(1)
    w.check('every report has its own list', len(w.call(objects.Report, report_specifier_id='a', report_name='b').report_descriptions) == 0)


@contract('C20', targets=['preflight._preflight_oadrDistributeEvent', 'preflight.preflight_message'], samples=300)
def distribute_event_measurement(w):
    """The measurement of a signal goes out in the namespace the schema has for it, one the schema does not have is refused."""
    names = ('voltage', 'current', 'energyReal', 'pulseCount', 'customUnit', 'powerReal', 'Voltage', 'flux')
    want = ('power', 'oadr', 'power', 'oadr', 'oadr', 'power', None, None)
    k = w.choice('which', 10)
    m = None if k == 8 else {'name': names[k], 'description': 'd', 'unit': 'u'} if k < 8 else 0
    sig = {'signal_name': 'x-s', 'signal_type': 'level', 'signal_id': 'i',
           'intervals': [{'dtstart': w.make('is', DT()), 'duration': timedelta(hours=1), 'signal_payload': 1}]}
    first = w.choice('first', 2) == 1
    if k < 9: sig['measurement'] = m
    other = w.deepcopy(sig)
    other['measurement'] = {'name': 'energyReactive', 'description': 'RE', 'unit': 'VARh'}
    sigs = [sig, other] if first else [other, sig]
    ev = {'event_descriptor': w.new(objects.EventDescriptor, event_id='e', event_status='far', modification_number=0) if False else
          {'event_id': 'e', 'event_status': 'far', 'modification_number': 0},
          'active_period': {'dtstart': w.make('s', DT()), 'duration': timedelta(hours=1)}, 'event_signals': sigs}
    if w.choice('cdt', 2) == 1: ev['event_descriptor']['created_date_time'] = w.make('c', Opt(DT()))
    cdt = ev['event_descriptor'].get('created_date_time')
    now = w.freeze()
    resp = w.new(objects.Response, response_code=200, response_description='OK', request_id='r')
    o = w.try_call('openleadr.preflight.preflight_message', 'oadrDistributeEvent', {'response': resp, 'events': [ev], 'vtn_id': 'v'})
    if k in (6, 7):
        w.check('refused', o.is_a(ValueError))
    else:
        w.check('sent', o.raised is None)
        p = o.value
        w.check('the rest of the message', w.all_(p['vtn_id'] == 'v', w.eq(p['response'], {'response_code': 200, 'response_description': 'OK', 'request_id': 'r'})))
        e = p['events'][0]
        s = e['event_signals'][0 if first else 1]
        t = e['event_signals'][1 if first else 0]
        w.check('namespace of the other', t['measurement']['ns'] == 'power')
        if k < 6: w.check('namespace', w.all_(s['measurement']['ns'] == want[k], s['measurement']['name'] == names[k]))
        else: w.check('no measurement', s.get('measurement') is None)
        w.check('creation time', w.eq(e['event_descriptor']['created_date_time'], now if cdt is None else cdt))
        w.check('nobody is targeted', not e.get('targets'))


@contract('C20', targets=['preflight._preflight_oadrDistributeEvent', 'preflight.preflight_message'], samples=600)
def distribute_event_several(w):
    """Each event of a message, each signal of an event and each interval of a signal is looked at, wherever it stands."""
    issue = w.choice('issue', 9)
    p = w.choice('event', 3)
    q = w.choice('signal', 2)
    r = w.choice('interval', 2)
    events = []
    for i in range(3):
        sigs = []
        for j in range(2):
            ivs = []
            for k in range(2):
                ivs.append({'dtstart': w.make('s' + str(i) + str(j) + str(k), DT()), 'duration': timedelta(minutes=30), 'signal_payload': 1})
            sigs.append({'signal_name': 'SIMPLE', 'signal_type': 'level', 'signal_id': 'i' + str(i) + str(j), 'intervals': ivs,
                         'current_value': 0})
        events.append({'event_descriptor': {'event_id': 'e' + str(i), 'event_status': 'far', 'modification_number': 0,
                                            'created_date_time': w.make('c' + str(i), DT())},
                       'active_period': {'dtstart': w.make('d' + str(i), DT()), 'duration': timedelta(hours=1)},
                       'event_signals': sigs, 'response_required': 'never',
                       'targets': [{'ven_id': 'v' + str(i)}], 'targets_by_type': {'ven_id': ['v' + str(i)]}})
    e = events[p]
    s = e['event_signals'][q]
    iv = s['intervals'][r]
    want = w.deepcopy(events)
    now = w.freeze()
    x = 4
    if issue in (1, 4):
        x = w.make('x', Int())
        w.assume(w.any_(x < 0, x > 3))
    refused = issue in (1, 2, 7, 8)
    if issue == 1: iv['signal_payload'] = x
    if issue == 2: iv['duration'] = timedelta(minutes=31)
    if issue == 3:
        for sig in e['event_signals']: sig['intervals'][r]['duration'] = timedelta(minutes=40)
        for sig in want[p]['event_signals']: sig['intervals'][r]['duration'] = timedelta(minutes=40)
        want[p]['active_period']['duration'] = timedelta(minutes=70)
    if issue == 4: s['current_value'] = x
    if issue == 5:
        del e['event_descriptor']['created_date_time']
        want[p]['event_descriptor']['created_date_time'] = now
    if issue == 6:
        e['response_required'] = 'maybe'
        want[p]['response_required'] = 'always'
    if issue == 7: e['targets'].append({'ven_id': 'another'})
    if issue == 8: s['measurement'] = {'name': 'Flux', 'description': 'd', 'unit': 'u'}
    o = w.try_call('openleadr.preflight.preflight_message', 'oadrDistributeEvent', {'events': events, 'vtn_id': 'v'})
    if refused: w.check('refused', o.is_a(ValueError))
    else:
        w.check('sent', o.raised is None)
        if o.raised is None: w.check('only the flaw is corrected', w.eq(o.value, {'events': want, 'vtn_id': 'v'}))
