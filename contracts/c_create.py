from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums
from openleadr.server import OpenADRServer
from openleadr.service import EventService, PollService
from contracts.c_time import spec_status
from contracts.c_events import make_event, stub_status
from contracts.c_vtn_events import VEN, OTHER, event_id, queue_of, same_list


def make_server(w, method='internal'):
    ev = EventService('vtn', method)
    po = PollService('vtn', method, event_service=ev)
    return w.new(OpenADRServer, services={'event_service': ev, 'poll_service': po}), ev, po


def interval(w, name, as_obj):
    start = w.make(name + '.dtstart', DT())
    dur = w.make(name + '.duration', Dur())
    if as_obj:
        return w.new(objects.Interval, dtstart=start, duration=dur, signal_payload=1.0, uid=None)
    return {'dtstart': start, 'duration': dur, 'signal_payload': 1.0}


def signal(intervals, name='SIMPLE'):
    return {'signal_name': name, 'signal_type': 'level', 'signal_id': 's', 'intervals': intervals}


def assume_sendable(w):
    """that an event can be sent is looked at elsewhere (add_event_unsendable); the events here all can"""
    w.modular('openleadr.preflight.preflight_message', lambda message_type, message_payload: message_payload)


def spans(w, intervals, period):
    """period is the smallest period that covers the intervals"""
    ps = utils.getmember(period, 'dtstart')
    pe = ps + utils.getmember(period, 'duration')
    starts = [utils.getmember(i, 'dtstart') for i in intervals]
    ends = [utils.getmember(i, 'dtstart') + utils.getmember(i, 'duration') for i in intervals]
    return w.all_(*[ps <= s for s in starts], w.any_(*[ps == s for s in starts]),
                  *[pe >= e for e in ends], w.any_(*[pe == e for e in ends]))


@contract('C23', targets=['utils.get_active_period_from_intervals'])
def active_period_covers(w):
    n = w.size('n', 4)
    w.assume(n > 0)
    as_obj = w.choice('as_obj', 2) == 1
    ivs = [interval(w, 'i' + str(k), as_obj) for k in range(n)]
    as_dict = w.choice('as_dict', 2) == 1
    r = w.call('openleadr.utils.get_active_period_from_intervals', ivs, as_dict)
    w.check('covers exactly the intervals', spans(w, ivs, r))
    w.check('of the requested kind', isinstance(r, dict) == as_dict)


def check_queued(w, ev, po, before, other, other_flag, event):
    q = ev.events[VEN]
    w.check('appended at the end, the rest kept', w.all_(len(q) == len(before) + 1,
                                                         same_list(w, q[:len(before)], before),
                                                         w.same(q[len(before)], event)))
    w.check('the VEN will be told', w.same(po.events_updated[VEN], True))
    w.check('queues of other VENs are left alone', same_list(w, ev.events[OTHER], other))
    w.check('flags of other VENs are left alone', w.eq(po.events_updated.get(OTHER), other_flag))


def prepared(w):
    """a server with some events queued"""
    server, ev, po = make_server(w)
    n = w.size('queued', 3)
    before = queue_of(w, 'q', n, False, light=True)
    if n > 0:
        ev.events[VEN] = list(before)
    other = [make_event(w, 'o', as_obj=False, light=1)]
    ev.events[OTHER] = list(other)
    oflag = w.make('oflag', OneOf(Const(None), Const(False)))
    if oflag is not None:
        po.events_updated[OTHER] = oflag
        po.events_updated[VEN] = False
    ev.event_callbacks['zz'] = ('x', 'y')
    return server, ev, po, before, other, oflag


@contract('C23', 'C03', targets=['server.OpenADRServer.add_raw_event'], samples=400, budget=150)
def add_raw_event_queues(w):
    assume_sendable(w)
    server, ev, po, before, other, oflag = prepared(w)
    as_obj = w.choice('as_obj', 2) == 1
    e = make_event(w, 'e', as_obj=as_obj, light=3)
    w.assume(w.not_(event_id(e) == 'zz'))
    has_period = True
    if not as_obj:
        if w.choice('with_period', 2) == 0:
            has_period = False
            del e['active_period']
            a, b = interval(w, 's0', False), interval(w, 's1', False)
            c = {'dtstart': w.make('s2.dtstart', DT()), 'duration': a['duration'] + b['duration'], 'signal_payload': 1.0}
            e['event_signals'] = [signal([a, b]), signal([c])][:w.choice('signals', 2) + 1]
        if w.choice('with_status', 2) == 0:
            del e['event_descriptor']['event_status']
            del e['event_descriptor']['priority']
        else:
            e['event_descriptor']['priority'] = w.make('priority', Int(0, 5))
    elif w.choice('twin', 2) == 1:
        # an equal event is in the queue already
        ev.events[VEN] = [w.deepcopy(e)]
        before = list(ev.events[VEN])
    old_status = utils.getmember(e, 'event_descriptor.event_status', None)
    old_prio = utils.getmember(e, 'event_descriptor.priority', None)
    old_period = utils.getmember(e, 'active_period') if has_period else None
    eid = event_id(e)
    cb = w.cb('cb', signature=('ven_id', 'event_id', 'opt_type'))
    k = w.choice('cb', 3)
    callback = None if k == 0 else cb if k == 1 else FakeFuture(False)
    dcb = w.cb('dcb') if w.choice('delivery', 2) == 1 else None
    r = w.call(server.add_raw_event, VEN, e, callback, dcb)
    w.check('the id is returned', r == eid)
    check_queued(w, ev, po, before, other, oflag, e)
    if callback is not None:
        w.check('the callback is registered for this event', w.all_(w.same(ev.event_callbacks[eid][1], callback),
                                                                    w.same(ev.event_callbacks[eid][0], e)))
    else:
        w.check('no callback', eid not in ev.event_callbacks)
    w.check('other callbacks kept', 'zz' in ev.event_callbacks)
    if dcb is not None:
        w.check('the delivery callback is registered', w.same(ev.event_delivery_callbacks[eid], dcb))
    else:
        w.check('no delivery callback', eid not in ev.event_delivery_callbacks)
    w.check('nothing is called yet', len(cb.calls) == 0)
    w.check('priority defaults to 0', utils.getmember(e, 'event_descriptor.priority') == (0 if old_prio is None else old_prio))
    w.check('a given status is kept', utils.getmember(e, 'event_descriptor.event_status') ==
            ('far' if old_status is None else old_status))
    if has_period:
        w.check('a given active period is kept', w.same(utils.getmember(e, 'active_period'), old_period))
    else:
        ivs = [i for s in e['event_signals'] for i in s['intervals']]
        w.check('the active period spans the intervals', spans(w, ivs, utils.getmember(e, 'active_period')))


@contract('C23', targets=['server.OpenADRServer.add_raw_event'], samples=100)
def add_raw_event_bad_callback(w):
    server, ev, po, before, other, oflag = prepared(w)
    e = make_event(w, 'e', as_obj=False, light=3)
    w.assume(w.not_(event_id(e) == 'zz'))
    names = (('ven_id', 'event_id'), ('event_id', 'opt_type'), ('ven_id', 'opt_type'), ('a', 'b', 'c'), (),
             ('ven_id', 'event_id', 'opt_type'), ('opt_type', 'ven_id', 'x', 'event_id'))
    k = w.choice('sig', 7)
    cb = w.cb('cb', signature=names[k])
    o = w.try_call(server.add_raw_event, VEN, e, cb)
    if k < 5 and e['response_required'] == 'always':
        w.check('a callback that cannot be called is refused', o.is_a(ValueError))
        w.check('nothing is queued', w.all_(event_id(e) not in ev.event_callbacks,
                                            len(ev.events.get(VEN, [])) == len(before),
                                            not po.events_updated.get(VEN)))
    else:
        w.check('accepted', o.raised is None)
        w.check('queued', len(ev.events[VEN]) == len(before) + 1)


@contract('C23', 'C03', targets=['server.OpenADRServer.cancel_event'], samples=300)
def cancel_event_marks(w):
    server, ev, po, before, other, oflag = prepared(w)
    obj = w.choice('objs', 2) == 1
    if obj:
        before = queue_of(w, 'p', len(before), True, light=True)
        if len(before) > 0:
            ev.events[VEN] = list(before)
    eid = w.make('eid', Id())
    stat = [utils.getmember(e, 'event_descriptor.event_status') for e in before]
    mods = [utils.getmember(e, 'event_descriptor.modification_number') for e in before]
    target = None
    for i in range(len(before)):
        if event_id(before[i]) == eid:
            target = i
    flag = po.events_updated.get(VEN)
    ostat = utils.getmember(other[0], 'event_descriptor.event_status')
    omod = utils.getmember(other[0], 'event_descriptor.modification_number')
    w.call(server.cancel_event, VEN, eid)
    for i in range(len(before)):
        s = utils.getmember(before[i], 'event_descriptor.event_status')
        m = utils.getmember(before[i], 'event_descriptor.modification_number')
        if i == target:
            w.check('the event is cancelled', s == 'cancelled')
            w.check('with a new modification number', m == mods[i] + 1)
        else:
            w.check('the other events are left alone', w.all_(s == stat[i], m == mods[i]))
    w.check('the event stays queued until the cancellation is confirmed', same_list(w, ev.events.get(VEN, []), before))
    if target is not None:
        w.check('the VEN will be told', w.same(po.events_updated[VEN], True))
    else:
        w.check('nothing to tell', w.eq(po.events_updated.get(VEN), flag))
    w.check('other VENs are left alone', w.all_(
        utils.getmember(other[0], 'event_descriptor.event_status') == ostat,
        utils.getmember(other[0], 'event_descriptor.modification_number') == omod,
        w.eq(po.events_updated.get(OTHER), oflag)))


@contract('C23', 'C03', targets=['server.OpenADRServer.add_event'], samples=250)
def add_event_builds(w):
    assume_sendable(w)
    now = w.freeze()
    stub_status(w, now)
    server, ev, po = make_server(w)
    ev.events[OTHER] = []
    n = w.size('n', 3)
    w.assume(n > 0)
    as_obj = w.choice('as_obj', 2) == 1
    ivs = [interval(w, 'i' + str(k), as_obj) for k in range(n)]
    name = w.make('signal_name', Enum('SIMPLE', 'ELECTRICITY_PRICE', 'x-custom', 'LOAD_DISPATCH'))
    typ = w.make('signal_type', Enum('level', 'price', 'delta'))
    ramp = w.make('ramp', Opt(Dur()))
    noti = w.make('noti', Opt(Dur()))
    reco = w.make('reco', Opt(Dur()))
    given = w.choice('given_id', 2) == 1
    resp = w.make('resp', Enum('always', 'never'))
    kw = {}
    if given: kw['event_id'] = w.make('eid', Id())
    mc = None
    if w.choice('mc?', 2) == 1: mc = kw['market_context'] = w.choice('mc', 2) == 1 and 'http://market/context?a=b#c' or 'urn:x'
    tk = w.choice('target', 7)
    tid = w.make('tid', Id())
    want_targets = {'ven_id': [tid]}
    if tk == 0: want_targets = {'ven_id': [VEN]}
    elif tk == 1: kw['target'] = {'ven_id': tid}
    elif tk == 2: kw['targets'] = [{'ven_id': tid}]
    elif tk == 3: kw['targets_by_type'] = {'ven_id': [tid]}
    elif tk == 4: kw['targets'] = {'ven_id': tid}
    else: kw['target' if tk == 5 else 'targets'] = w.new(objects.Target, ven_id=tid, group_id=None, group_name=None, resource_id=None,
                               party_id=None, aggregated_p_node=None, end_device_asset=None, meter_asset=None,
                               p_node=None, service_area=None, service_delivery_point=None, service_location=None,
                               transport_interface=None)
    cb = w.cb('cb', signature=('ven_id', 'event_id', 'opt_type'))
    dcb = w.cb('dcb')
    r = w.call(server.add_event, VEN, name, typ, ivs, callback=cb, delivery_callback=dcb, response_required=resp,
               ramp_up_period=ramp, notification_period=noti, recovery_period=reco, **kw)
    q = ev.events[VEN]
    w.check('one event is queued for this VEN', w.all_(len(q) == 1, len(ev.events[OTHER]) == 0))
    e = q[0]
    w.check('the VEN will be told', w.all_(w.same(po.events_updated[VEN], True), OTHER not in po.events_updated))
    w.check('its id is returned', utils.getmember(e, 'event_descriptor.event_id') == r)
    if given: w.check('the given id', r == kw['event_id'])
    else: w.check('an id is made up', w.all_(r is not None, r != ''))
    w.check('created now', utils.getmember(e, 'event_descriptor.created_date_time') == now)
    if mc is not None: w.check('the market context', utils.getmember(e, 'event_descriptor.market_context') == mc)
    else: w.check('a market context', utils.getmember(e, 'event_descriptor.market_context') not in (None, ''))
    w.check('modification number 0', utils.getmember(e, 'event_descriptor.modification_number') == 0)
    ap = utils.getmember(e, 'active_period')
    w.check('the active period spans the intervals', spans(w, ivs, ap))
    w.check('the periods are passed on', w.all_(w.eq(utils.getmember(ap, 'ramp_up_period'), ramp),
                                                w.eq(utils.getmember(ap, 'notification_period'), noti),
                                                w.eq(utils.getmember(ap, 'recovery_period'), reco)))
    st = spec_status(w, now, utils.getmember(ap, 'dtstart'), utils.getmember(ap, 'duration'), ramp)
    w.check('the status is the current one', utils.getmember(e, 'event_descriptor.event_status') == st)
    w.check('response_required', utils.getmember(e, 'response_required') == resp)
    sig = utils.getmember(e, 'event_signals')
    w.check('one signal with these intervals', w.all_(len(sig) == 1, utils.getmember(sig[0], 'signal_name') == name,
                                                      utils.getmember(sig[0], 'signal_type') == typ,
                                                      same_list(w, utils.getmember(sig[0], 'intervals'), ivs)))
    w.check('the signal has an id', utils.getmember(sig[0], 'signal_id') not in (None, ''))
    w.check('the targets', w.eq(utils.getmember(e, 'targets_by_type'), want_targets))
    w.check('the callback is registered', w.same(ev.event_callbacks[r][1], cb))
    w.check('the delivery callback is registered', w.same(ev.event_delivery_callbacks[r], dcb))


@contract('C23', targets=['server.OpenADRServer.add_event'], samples=200)
def add_event_naive(w):
    """An interval that starts at a naive time starts at that local time; events never carry naive times."""
    now = w.freeze()
    stub_status(w, now)
    server, ev, po = make_server(w)
    TIMES = (datetime(2026, 3, 1, 12), datetime(2026, 7, 1, 12, 30), datetime(2026, 3, 1, 12, tzinfo=timezone.utc),
             datetime(2026, 3, 1, 12, tzinfo=timezone(timedelta(hours=2))))
    n = 1 + w.choice('n', 2)
    as_obj = w.choice('as_obj', 2) == 1
    starts = [TIMES[w.choice('start' + str(k), 4)] for k in range(n)]
    ivs = []
    for s in starts:
        iv = {'dtstart': s, 'duration': timedelta(hours=1), 'signal_payload': 1}
        if as_obj: iv = w.new(objects.Interval, dtstart=s, duration=timedelta(hours=1), signal_payload=1, uid=None)
        ivs.append(iv)
    r = w.call(server.add_event, VEN, 'SIMPLE', 'level', ivs)
    e = ev.events[VEN][0]
    got = e.event_signals[0].intervals
    utc = [s.astimezone(timezone.utc) for s in starts]
    for g, u in zip(got, utc):
        d = utils.getmember(g, 'dtstart')
        w.check('an aware time', d.tzinfo is not None)
        w.check('the moment that was meant', d == u)
    w.check('all of them', len(got) == n)
    w.check('the period starts at the first', w.all_(e.active_period.dtstart == min(utc), e.active_period.dtstart.tzinfo is not None,
                                                     e.active_period.dtstart + e.active_period.duration == max(utc) + timedelta(hours=1)))


@contract('C23', targets=['server.OpenADRServer.add_event'], samples=200)
def add_event_refuses(w):
    bad = w.choice('bad', 6)
    server, ev, po = make_server(w, 'external' if bad == 5 else 'internal')
    iv = [interval(w, 'i', False)]
    cb = w.cb('cb', signature=('ven_id', 'event_id', 'opt_type'))
    kw = dict(signal_name='SIMPLE', signal_type='level', intervals=iv, callback=cb)
    if bad == 0: kw['signal_name'] = w.make('name', Id(pool=['simple', 'price', 'y-custom'], avoid=tuple(enums.SIGNAL_NAME.values)))
    elif bad == 1: kw['signal_type'] = w.make('type', Id(avoid=tuple(enums.SIGNAL_TYPE.values)))
    elif bad == 2: kw['response_required'] = w.make('resp', Id(avoid=('always', 'never')))
    elif bad == 3: kw['intervals'] = []
    elif bad == 4: kw['intervals'] = iv[0]
    if bad == 0:
        w.assume(not kw['signal_name'].startswith('x-'))
    o = w.try_call(server.add_event, VEN, **kw)
    if bad == 5: w.check('own polling: refused', w.all_(o.raised is None, o.value is None))
    else: w.check('an invalid event is refused', o.is_a(ValueError))
    w.check('nothing is queued', w.all_(not ev.events.get(VEN), not po.events_updated.get(VEN),
                                        len(ev.event_callbacks) == 0))


@contract('C23', 'C20', targets=['server.OpenADRServer.add_raw_event', 'server.OpenADRServer.add_event'], samples=300)
def add_event_unsendable(w):
    """An event that can not be sent would stand in the way of all others: it is refused and leaves nothing behind."""
    server, ev, po = make_server(w)
    ev.events[OTHER] = []
    cb = w.cb('cb', signature=('ven_id', 'event_id', 'opt_type'))
    flaw = w.choice('flaw', 6)
    level = w.make('level', Int(0, 9))
    if flaw in (0, 4): w.assume(level > 3)
    else: w.assume(level <= 3)
    h = timedelta(hours=1)
    start = w.make('start', DT())

    def iv(hours=1, v=None):
        return {'dtstart': start, 'duration': hours * h, 'signal_payload': level if v is None else v}
    if flaw >= 4:
        ivs = [iv(v=0), iv()]
        if w.flag('objects'): ivs = [w.new(objects.Interval, uid=None, **i) for i in ivs]
        o = w.try_call(server.add_event, VEN, 'SIMPLE', 'level', ivs, event_id='e', callback=cb)
        ok = flaw == 5
    else:
        e = {'event_descriptor': {'event_id': 'e', 'modification_number': 0, 'event_status': 'far'}, 'event_signals': [],
             'targets': [{'ven_id': 'v'}], 'response_required': 'always',
             'active_period': {'dtstart': start, 'duration': 2 * h}}
        e['event_signals'] = [signal([iv(2, 1)]), signal([iv(), iv()])]
        if flaw == 1: e['event_signals'][1]['intervals'][0]['duration'] = timedelta(minutes=61)
        if flaw == 2: e['targets_by_type'] = {'ven_id': ['w']}
        o = w.try_call(server.add_raw_event, VEN, e, cb)
        ok = flaw == 3
    if ok:
        w.check('accepted', o.raised is None)
        w.check('queued', w.all_(len(ev.events[VEN]) == 1, w.same(po.events_updated[VEN], True), 'e' in ev.event_callbacks))
    else:
        w.check('refused', o.is_a(ValueError))
        w.check('nothing is queued', w.all_(not ev.events.get(VEN), not po.events_updated.get(VEN), len(ev.event_callbacks) == 0))


# ------------------------------------------------------------------ targets (C19)
TYPES = ('ven_id', 'group_id', 'resource_id')


def make_target(w, name, as_obj, types=TYPES):
    """a target with one type, or several, or None members"""
    vals = {t: w.make(name + '.' + t, Opt(Id())) if t in types else None for t in TYPES}
    if as_obj:
        return w.new(objects.Target, group_name=None, party_id=None, aggregated_p_node=None, end_device_asset=None,
                     meter_asset=None, p_node=None, service_area=None, service_delivery_point=None,
                     service_location=None, transport_interface=None, **vals)
    return vals


def spec_group(targets):
    g = {}
    for t in TYPES:
        vs = [utils.getmember(x, t) for x in targets]
        vs = [v for v in vs if v is not None]
        if len(vs) > 0: g[t] = vs
    return g


@contract('C19', targets=['utils.group_targets_by_type'])
def group_targets(w):
    n = w.size('n', 3, 4)
    ts = [make_target(w, 't' + str(i), False) for i in range(n)]
    r = w.call('openleadr.utils.group_targets_by_type', ts)
    w.check('values by type, in order, without the empty ones', w.eq(r, spec_group(ts)))


@contract('C19', targets=['utils.ungroup_targets_by_type', 'utils.group_targets_by_type'])
def ungroup_targets(w):
    g = {}
    total = 0
    for t in TYPES:
        n = w.size(t + '#', 4)
        total = total + n
        if n > 0: g[t] = [w.make(t + str(i), Id()) for i in range(n)]
    r = w.call('openleadr.utils.ungroup_targets_by_type', g)
    w.check('one target per value', len(r) == total)
    for t in r: w.check('of one type each', len(t) == 1)
    back = w.call('openleadr.utils.group_targets_by_type', r)
    w.check('grouping them again gives the same', w.eq(back, g))


@contract('C19', targets=['utils.ungroup_targets_by_type'])
def ungroup_single(w):
    v = w.make('v', Id())
    r = w.call('openleadr.utils.ungroup_targets_by_type', {'ven_id': v})
    w.check('a single value is one target', w.eq(r, [{'ven_id': v}]))


@contract('C19', targets=['objects.Event.__post_init__', 'objects.Opt.__post_init__'], samples=400)
def targets_consistent(w):
    """Event and Opt: 'targets' and 'targets_by_type' describe the same targets, or the object is refused."""
    now = w.freeze()
    stub_status(w, now)
    as_obj = w.choice('as_obj', 2) == 1
    n = w.size('n', 3)
    kind = w.choice('kind', 4)
    ts = [make_target(w, 't' + str(i), as_obj, TYPES[:2] if i == 0 else TYPES[:1]) for i in range(n)] if kind in (0, 2) else None
    g = None
    if kind in (1, 2):
        g = {}
        for t in TYPES[:2]:
            m = w.size(t + '#', 3)
            if m > 0: g[t] = [w.make(t + str(i), Id()) for i in range(m)]
    if w.choice('what', 2) == 0:
        iv = {'dtstart': w.make('s', DT()), 'duration': w.make('d', Dur())}
        sig = w.new(objects.EventSignal, intervals=[iv], signal_name='SIMPLE', signal_type='level', signal_id='s')
        ed = w.new(objects.EventDescriptor, event_id='e', modification_number=0, market_context='m', event_status='far')
        o = w.try_call(objects.Event, event_descriptor=ed, event_signals=[sig], targets=ts, targets_by_type=g)
    else:
        o = w.try_call(objects.Opt, opt_type='optIn', opt_reason='economic', event_id='e', targets=ts, targets_by_type=g)
    if kind == 3:
        w.check('targets are required', o.is_a(ValueError))
    elif kind == 2 and not w.eq(spec_group(ts), g):
        w.check('contradicting targets are refused', o.is_a(ValueError))
    else:
        w.check('accepted', o.raised is None)
        e = o.value
        w.check('targets and targets_by_type agree', w.eq(spec_group(e.targets), e.targets_by_type))
        if kind == 1: w.check('as given', w.eq(e.targets_by_type, g))
        if ts is not None: w.check('targets as given', same_list(w, e.targets, ts))


@contract('C19', 'C23', targets=['objects.EventSignal.__post_init__'], samples=300)
def event_signal_targets(w):
    as_obj = w.choice('as_obj', 2) == 1
    n = w.size('n', 3)
    kind = w.choice('kind', 4)
    ts = [make_target(w, 't' + str(i), as_obj, TYPES[:2] if i == 0 else TYPES[:1]) for i in range(n)] if kind in (0, 2) else None
    g = None
    if kind in (1, 2):
        g = {}
        for t in TYPES[:2]:
            m = w.size(t + '#', 2)
            if m > 0: g[t] = [w.make(t + str(i), Id()) for i in range(m)]
    k = w.choice('names', 5)
    name = ('SIMPLE', 'x-own', 'price', '', 'SIMPLE')[k]
    typ = ('level', 'price', 'level', 'level', 'Level')[k]
    if k > 1:
        w.assume(n == 0)
    o = w.try_call(objects.EventSignal, intervals=[], signal_name=name, signal_type=typ, signal_id='s', targets=ts,
                   targets_by_type=g)
    if name == 'price' or name == '' or typ == 'Level':
        w.check('unknown names and types are refused', o.is_a(ValueError))
    elif kind == 2 and not w.eq(spec_group(ts), g):
        w.check('contradicting targets are refused', o.is_a(ValueError))
    elif kind == 0 and len(spec_group(ts)) > 1:
        w.check('targets of several types are refused', o.is_a(ValueError))
    else:
        w.check('accepted', o.raised is None)
        e = o.value
        if kind == 1: w.check('targets follow', w.eq(spec_group(e.targets), g))
        if ts is not None: w.check('targets as given', same_list(w, e.targets, ts))
