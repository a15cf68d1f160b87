from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums
from contracts.c_time import spec_status

STATUSES = ('none', 'far', 'near', 'active', 'completed', 'cancelled')


T0 = datetime(2026, 3, 1, 12, tzinfo=timezone.utc)


def make_event(w, name, as_obj=None, status=None, light=None):
    """An arbitrary event, as a dict or as an objects.Event (its __init__ is not run)."""
    eid = w.make(name + '.event_id', Id())
    mod = w.make(name + '.modification_number', Int(0, 1000000))
    st = w.make(name + '.event_status', Enum(*STATUSES)) if status is None else status
    if light is None:
        start = w.make(name + '.dtstart', DT())
        dur = w.make(name + '.duration', Dur())
        ramp = w.make(name + '.ramp', Opt(Dur()))
        pr = w.make(name + '.priority', Int(0, 2 ** 32 - 1))
        created = w.make(name + '.created', DT())
    else:
        # start, priority and ramp up fixed (the time of the check is arbitrary)
        start = T0 + timedelta(hours=light)
        dur = w.make(name + '.duration', Dur())
        ramp = None
        pr = 0
        created = T0 - timedelta(days=1)
    resp = w.make(name + '.response_required', Enum('always', 'never'))
    if as_obj is None:
        as_obj = w.choice(name + '.as', 2) == 1
    if as_obj:
        ed = w.new(objects.EventDescriptor, event_id=eid, modification_number=mod, market_context='oadr://x',
                   event_status=st, created_date_time=created, modification_date_time=created, priority=pr,
                   test_event=False, vtn_comment=None)
        ap = w.new(objects.ActivePeriod, dtstart=start, duration=dur, tolerance=None, notification_period=None,
                   ramp_up_period=ramp, recovery_period=None)
        return w.new(objects.Event, event_descriptor=ed, event_signals=[], targets=[{'ven_id': 'v'}],
                     targets_by_type={'ven_id': ['v']}, active_period=ap, response_required=resp)
    return {'event_descriptor': {'event_id': eid, 'modification_number': mod, 'market_context': 'oadr://x',
                                 'event_status': st, 'created_date_time': created, 'priority': pr},
            'event_signals': [], 'targets': [{'ven_id': 'v'}],
            'active_period': {'dtstart': start, 'duration': dur, 'ramp_up_period': ramp},
            'response_required': resp}


def status_at(w, ev, now):
    """status of the event when looked at at `now`: cancelled stays, otherwise the function of time"""
    st = utils.getmember(ev, 'event_descriptor.event_status')
    s = spec_status(w, now, utils.getmember(ev, 'active_period.dtstart'), utils.getmember(ev, 'active_period.duration'),
                    ramp_of(utils.getmember(ev, 'active_period')))
    return w.ite(st == 'cancelled', 'cancelled', s)


def ramp_of(ap):
    """how long before its start an event is near; what was received has another name for it"""
    r = utils.getmember(ap, 'ramp_up_period', None)
    return utils.getmember(ap, 'ramp_up', None) if r is None else r


def stub_status(w, now):
    def status(active_period):
        return spec_status(w, now, utils.getmember(active_period, 'dtstart'), utils.getmember(active_period, 'duration'),
                           ramp_of(active_period))
    w.modular('openleadr.utils.determine_event_status', status)


def prio_rank(w, ev):
    p = utils.getmember(ev, 'event_descriptor.priority')
    return w.ite(p == 0, 2 ** 40, p)


def before_ok(w, a, b):
    """a may be placed before b in a list of events"""
    sa = utils.getmember(a, 'event_descriptor.event_status') == 'active'
    sb = utils.getmember(b, 'event_descriptor.event_status') == 'active'
    ta = utils.getmember(a, 'active_period.dtstart')
    tb = utils.getmember(b, 'active_period.dtstart')
    pa = prio_rank(w, a)
    pb = prio_rank(w, b)
    return w.any_(w.all_(sa, w.not_(sb)),
                  w.all_(sa, sb, w.any_(pa < pb, w.all_(pa == pb, ta <= tb))),
                  w.all_(w.not_(sa), w.not_(sb), ta <= tb))


def check_order(w, now, events, before, r):
    w.check('as many events come out as went in', len(r) == len(events))
    for i, e in enumerate(events):
        w.check('every event is in the result', w.any_(*[w.same(e, x) for x in r]))
        w.check('event status is up to date', utils.getmember(e, 'event_descriptor.event_status') == before[i])
    for i in range(len(r) - 1):
        w.check('active first, then priority, then start', before_ok(w, r[i], r[i + 1]))


@contract('C02', targets=['utils.order_events'], samples=300, budget=240)
def order_events(w):
    now = w.freeze()
    stub_status(w, now)
    n = w.size('n', 4)
    kind = w.choice('kind', 2) == 1
    events = [make_event(w, 'e' + str(i), as_obj=kind) for i in range(n)]
    want = [status_at(w, e, now) for e in events]
    before = [utils.getmember(e, 'event_descriptor.created_date_time') for e in events]
    old = [utils.getmember(e, 'event_descriptor.event_status') for e in events]
    arg = list(events)
    r = w.call('openleadr.utils.order_events', arg)
    check_order(w, now, events, want, r)
    w.check('the given list is left alone', len(arg) == n)
    w.check('the result is a new list', w.not_(w.same(r, arg)))
    for i in range(n):
        c = utils.getmember(events[i], 'event_descriptor.created_date_time')
        w.check('a change of status is stamped', w.ite(old[i] == want[i], c == before[i], c == now))


@contract('C02', targets=['utils.order_events', 'utils.getmember'], samples=300, budget=120)
def order_events_sparse(w):
    """Events that leave the priority out (or have it as None) come with those of priority 0:
    after the active events that have one, before those that are not active."""
    now = w.freeze()
    stub_status(w, now)
    n = 2 + w.size('n', 1, 2)
    events = []
    rank = []
    for i in range(n):
        e = make_event(w, 'e' + str(i), as_obj=False, light=i)
        how = w.choice('priority' + str(i), 4)
        if how == 0:
            del e['event_descriptor']['priority']
        else:
            e['event_descriptor']['priority'] = (0, None, 7)[how - 1]
        rank.append(7 if how == 3 else 2 ** 40)
        events.append(e)
    want = [status_at(w, e, now) for e in events]
    if w.choice('window', 2) == 0:
        r = w.call('openleadr.utils.order_events', list(events))
        w.check('as many events come out as went in', len(r) == n)
        off = 0
    else:
        r = w.call('openleadr.utils.order_events', list(events), limit=1, offset=1)
        w.check('one event comes out', len(r) == 1)
        off = 1
    def place(i):
        ok = 0
        for j in range(n):
            if j != i:
                a = want[i] == 'active'
                b = want[j] == 'active'
                first = w.any_(w.all_(b, w.not_(a)),
                               w.all_(w.iff(a, b), w.any_(w.all_(a, rank[j] < rank[i]),
                                                          w.all_(w.any_(w.not_(a), rank[j] == rank[i]), j < i))))
                ok = ok + w.ite(first, 1, 0)
        return ok
    places = [place(i) for i in range(n)]
    for k in range(len(r)):
        for i in range(n):
            w.check('every event is in its place', w.iff(places[i] == k + off, w.same(r[k], events[i])))


@contract('C02', targets=['utils.order_events'])
def order_events_none(w):
    """No events at all, and a single event on its own, are fine as well."""
    now = w.freeze()
    stub_status(w, now)
    kind = w.choice('kind', 4)
    if kind == 0:
        w.check('nothing stays nothing', w.call('openleadr.utils.order_events', None) is None)
    elif kind == 1:
        w.check('no events', w.call('openleadr.utils.order_events', []) == [])
    else:
        e = make_event(w, 'e', as_obj=kind == 2)
        want = status_at(w, e, now)
        r = w.call('openleadr.utils.order_events', e)
        w.check('the event comes in a list', w.all_(len(r) == 1, w.same(r[0], e)))
        w.check('its status is up to date', utils.getmember(e, 'event_descriptor.event_status') == want)
