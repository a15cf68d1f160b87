from pyvc.api import *
from datetime import datetime, timedelta, timezone
import asyncio
from openleadr import objects, utils, enums, errors
from openleadr.service import EventService, PollService
from contracts.c_events import make_event, status_at, stub_status, before_ok

VEN = 'ven1'
OTHER = 'ven2'


def event_id(e):
    return utils.getmember(e, 'event_descriptor.event_id')


def same_list(w, xs, ys):
    return w.all_(len(xs) == len(ys), *[w.same(xs[i], ys[i]) for i in range(min(len(xs), len(ys)))])


def queue_of(w, name, n, as_obj, distinct=True, light=False):
    q = [make_event(w, name + str(i), as_obj=as_obj, light=i if light else None) for i in range(n)]
    if distinct:
        for i in range(n):
            for j in range(i):
                w.assume(w.not_(event_id(q[i]) == event_id(q[j])))
    return q


@contract('C04', 'C03', targets=['service.event_service.EventService.request_event'], samples=250)
def request_event_internal(w):
    now = w.freeze()
    stub_status(w, now)
    n = w.size('n', 3, 4)
    as_obj = w.choice('as_obj', 2) == 1
    q = queue_of(w, 'e', n, as_obj, light=True)
    s = EventService('vtn', 'internal')
    known = w.choice('known', 2) == 1
    if n > 0 or known:
        s.events[VEN] = list(q)
    o = make_event(w, 'o', as_obj=False, light=7)
    s.events[OTHER] = [o]
    had = w.choice('had', 2) == 1
    if had:
        s.completed_event_ids[VEN] = ['old']
    cbs = []
    for i in range(n):
        cb = w.cb('delivered' + str(i))
        cbs.append(cb)
    hooked = w.choice('hooked', 2) == 1 and n > 0
    if hooked:
        s.event_delivery_callbacks[event_id(q[0])] = cbs[0]
    want = [status_at(w, e, now) for e in q]
    typ, payload = w.call(s.request_event, {'ven_id': VEN})
    if n == 0:
        w.check('nothing to send', w.all_(typ == 'oadrResponse', len(payload) == 0))
    else:
        out = payload['events']
        w.check('events are distributed', typ == 'oadrDistributeEvent')
        w.check('all events are delivered', len(out) == n)
        for i in range(n):
            w.check('every event is delivered', w.any_(*[w.same(q[i], x) for x in out]))
            w.check('with its current status', utils.getmember(q[i], 'event_descriptor.event_status') == want[i])
        for i in range(n - 1):
            w.check('in order', before_ok(w, out[i], out[i + 1]))
    rest = [q[i] for i in range(n) if want[i] != 'completed']
    done = [event_id(q[i]) for i in range(n) if want[i] == 'completed']
    if n > 0:
        w.check('completed events leave the queue, the others stay', same_list(w, s.events[VEN], rest))
    ids = s.completed_event_ids.get(VEN, [])
    for d in done:
        w.check('the ids of completed events are kept', d in ids)
    w.check('no other ids are recorded', len(ids) == len(done) + (1 if had else 0))
    w.check('events of other VENs are left alone', w.all_(len(s.events[OTHER]) == 1, w.same(s.events[OTHER][0], o)))
    w.check('no ids for other VENs', OTHER not in s.completed_event_ids)
    for i in range(n):
        expect = 1 if hooked and i == 0 else 0
        w.check('the delivery callback fires once per delivery', len(cbs[i].calls) == expect)
        w.check('the delivery callback is awaited', len(cbs[i].finished) == expect)


@contract('C04', targets=['service.event_service.EventService.request_event'], samples=200)
def request_event_external(w):
    now = w.freeze()
    stub_status(w, now)
    k = w.choice('kind', 4)
    e = make_event(w, 'e', as_obj=None)
    if k == 0: result = None
    elif k == 1: result = e
    elif k == 2: result = [e]
    else: result = [e, make_event(w, 'f', as_obj=False)]
    s = EventService('vtn', 'external')
    handler = w.cb('on_request_event', fn=lambda ven_id: result)
    s.on_request_event = handler
    typ, payload = w.call(s.request_event, {'ven_id': VEN})
    w.check('the handler is asked once, for this VEN', w.all_(len(handler.calls) == 1,
                                                              handler.calls[0][1] == {'ven_id': VEN}))
    if k == 0:
        w.check('no events', w.all_(typ == 'oadrResponse', len(payload) == 0))
    else:
        w.check('distributed', typ == 'oadrDistributeEvent')
        w.check('all of them', len(payload['events']) == (2 if k == 3 else 1))
        w.check('the given event', w.any_(*[w.same(e, x) for x in payload['events']]))


@contract('C03', targets=['service.poll_service.PollService.poll', 'service.event_service.EventService.request_event'],
          samples=300)
def poll_keeps_updates(w):
    """No added or changed event is lost by polling, whatever happens while the delivery is under way."""
    now = w.freeze()
    stub_status(w, now)
    ev = EventService('vtn', 'internal')
    s = PollService('vtn', 'internal', event_service=ev)
    flag = w.make('flag', OneOf(Const(None), Const(False), Const(True)))
    if flag is not None:
        s.events_updated[VEN] = flag
    oflag = w.make('oflag', OneOf(Const(None), Const(False), Const(True)))
    if oflag is not None:
        s.events_updated[OTHER] = oflag
    n = w.size('n', 3)
    q = queue_of(w, 'e', n, False, light=True)
    ev.events[VEN] = list(q)
    interfere = w.choice('interfere', 3)
    new = make_event(w, 'new', as_obj=False, light=5)

    def meanwhile():
        if interfere == 1:
            ev.events[VEN].append(new)
            s.events_updated[VEN] = True

    cb = w.cb('delivered', effect=meanwhile, raises=(AnyError if interfere == 2 else None))
    if n > 0:
        ev.event_delivery_callbacks[event_id(q[0])] = cb
    o = w.try_call(s.poll, {'ven_id': VEN})
    if flag is not True:
        w.check('nothing new', w.all_(o.raised is None, o.value[0] == 'oadrResponse', len(o.value[1]) == 0))
        w.check('nothing delivered', len(cb.calls) == 0)
        w.check('flag as it was', s.events_updated.get(VEN) is flag or not s.events_updated.get(VEN))
    elif o.raised is not None:
        w.check('only the callback fails', w.all_(n > 0, interfere == 2))
        w.check('a failed delivery is tried again', s.events_updated[VEN] is True)
    else:
        typ, payload = o.value
        if n == 0:
            w.check('nothing in the queue', typ == 'oadrResponse')
        else:
            w.check('delivers', typ == 'oadrDistributeEvent')
            for e in q:
                w.check('every event of the VEN is delivered', w.any_(*[w.same(e, x) for x in payload['events']]))
        called = len(cb.calls) > 0
        if interfere == 1 and called:
            undelivered = w.not_(w.any_(*[w.same(new, x) for x in payload['events']]))
            w.check('an event added meanwhile is still announced', w.implies(undelivered, s.events_updated[VEN]))
        else:
            w.check('delivered: no longer updated', not s.events_updated[VEN])
    w.check('flags of other VENs are left alone', w.eq(s.events_updated.get(OTHER), oflag))


@contract('C03', targets=['service.poll_service.PollService.poll'], samples=250)
def poll_external(w):
    """The result of a user supplied on_poll handler is turned into the message it stands for."""
    k = w.choice('kind', 7)
    e = make_event(w, 'e', as_obj=False)
    pay = {'x': 1}
    if k == 0: result = None
    elif k == 1: result = e
    elif k == 2: result = [e]
    elif k == 3: result = ('oadrRequestReregistration', pay)
    elif k == 4: result = []
    elif k == 5:
        e = make_event(w, 'obj', as_obj=True)
        result = e
    else: result = [e, e]
    s = PollService('vtn', 'external')
    h = w.cb('on_poll', fn=lambda ven_id: result)
    s.on_poll = h
    s.events_updated[VEN] = True
    typ, payload = w.call(s.poll, {'ven_id': VEN})
    w.check('asked once', w.all_(len(h.calls) == 1, h.calls[0][1] == {'ven_id': VEN}, len(h.finished) == 1))
    if k == 0:
        w.check('nothing to send', w.all_(typ == 'oadrResponse', len(payload) == 0))
    elif k == 3:
        w.check('a message is passed on as it is', w.all_(typ == 'oadrRequestReregistration', w.same(payload, pay)))
    else:
        w.check('events are distributed', typ == 'oadrDistributeEvent')
        evs = payload['events']
        want = 2 if k == 6 else 0 if k == 4 else 1
        w.check('all events', len(evs) == want)
        if want > 0:
            w.check('the given event', utils.getmember(evs[0], 'event_descriptor.event_id') == event_id(e))


def make_callbacks(w, name, ev):
    """a registered response callback: none, a pending or done future, or a function"""
    k = w.choice(name, 4)
    if k == 0: return 'none', None
    if k == 1: return 'pending', FakeFuture(False)
    if k == 2: return 'done', FakeFuture(True)
    return 'func', w.cb(name + '.cb')


@contract('C05', 'C04', targets=['service.event_service.EventService.created_event'], samples=400)
def created_event_one(w):
    n = w.size('n', 3)
    as_obj = w.choice('as_obj', 2) == 1
    q = queue_of(w, 'e', n, as_obj)
    s = EventService('vtn', 'internal')
    if n > 0 or w.choice('known', 2) == 1:
        s.events[VEN] = list(q)
    o = make_event(w, 'o', as_obj=False, light=7)
    s.events[OTHER] = [o]
    done_id = w.make('done_id', Id())
    has_done = w.choice('has_done', 2) == 1
    if has_done:
        s.completed_event_ids[VEN] = [done_id]
    if w.choice('other_done', 2) == 1:
        # what another VEN completed says nothing about this one
        s.completed_event_ids[OTHER] = [w.make('other_done_id', Id())]
    rid = w.make('rid', Id())
    rmod = w.make('rmod', Int(0, 1000000))
    opt = w.make('opt', Enum('optIn', 'optOut'))
    kind, cb = make_callbacks(w, 'reg', None)
    if cb is not None:
        s.event_callbacks[rid] = ({'event': 1}, cb)
    xid = w.make('xid', Id())
    w.assume(w.not_(xid == rid))
    xcb = w.cb('other')
    s.event_callbacks[xid] = ({'event': 2}, xcb)
    out = w.try_call(s.created_event, {'ven_id': VEN, 'event_responses': [
        {'event_id': rid, 'modification_number': rmod, 'opt_type': opt, 'response_code': 200}]})
    match = None
    for e in q:
        if w.all_(event_id(e) == rid, utils.getmember(e, 'event_descriptor.modification_number') == rmod):
            match = e
    is_done = has_done and done_id == rid
    known = match is not None or is_done
    cancelled = match is not None and utils.getmember(match, 'event_descriptor.event_status') == 'cancelled'
    rest = [e for e in q if not (cancelled and e is match)]
    if known:
        w.check('accepted', w.all_(out.raised is None))
        w.check('acknowledged', w.all_(out.value[0] == 'oadrResponse', len(out.value[1]) == 0))
        w.check('the callback is used up', rid not in s.event_callbacks)
        if kind == 'pending':
            w.check('the future gets the opt type', w.all_(cb.sets == 1, cb.fvalue == opt))
        elif kind == 'done':
            w.check('a finished future is left alone', cb.sets == 0)
        elif kind == 'func':
            w.check('the callback is called once', len(cb.calls) == 1)
            w.check('to its end', len(cb.finished) == 1)
            w.check('with this response', cb.calls[0][1] == {'ven_id': VEN, 'event_id': rid, 'opt_type': opt})
    else:
        w.check('an unknown event is refused', out.is_a(errors.InvalidIdError))
        w.check('no callback for an unknown event', (rid in s.event_callbacks) == (cb is not None))
        if kind == 'pending':
            w.check('future untouched', cb.sets == 0)
        elif kind == 'func':
            w.check('callback not called', len(cb.calls) == 0)
    if VEN in s.events:
        w.check('a confirmed cancellation leaves the queue, the others stay', same_list(w, s.events[VEN], rest))
    w.check('other VENs are left alone', w.all_(len(s.events[OTHER]) == 1, w.same(s.events[OTHER][0], o)))
    w.check('other callbacks are left alone', w.all_(len(xcb.calls) == 0, xid in s.event_callbacks))


@contract('C05', targets=['service.event_service.EventService.created_event'], samples=200)
def created_event_several(w):
    """Every response of a message reaches the callback of its own event, once."""
    ids = [w.make('id0', Id()), w.make('id1', Id())]
    w.assume(w.not_(ids[0] == ids[1]))
    q = []
    for i in range(2):
        e = make_event(w, 'e' + str(i), as_obj=False)
        e['event_descriptor']['event_id'] = ids[i]
        q.append(e)
    s = EventService('vtn', 'internal')
    s.events[VEN] = list(q)
    cbs = [w.cb('cb0'), w.cb('cb1')]
    for i in range(2):
        s.event_callbacks[ids[i]] = (q[i], cbs[i])
    opts = [w.make('opt0', Enum('optIn', 'optOut')), w.make('opt1', Enum('optIn', 'optOut'))]
    order = [0, 1] if w.choice('order', 2) == 0 else [1, 0]
    repeat = w.choice('repeat', 2) == 1
    resp = [{'event_id': ids[i], 'modification_number': utils.getmember(q[i], 'event_descriptor.modification_number'),
             'opt_type': opts[i]} for i in order]
    w.call(s.created_event, {'ven_id': VEN, 'event_responses': resp})
    for i in range(2):
        w.check('each callback once', len(cbs[i].calls) == 1)
        w.check('awaited', len(cbs[i].finished) == 1)
        w.check('its own response', cbs[i].calls[0][1] == {'ven_id': VEN, 'event_id': ids[i], 'opt_type': opts[i]})
    if repeat:
        live = [r for i, r in zip(order, resp) if utils.getmember(q[i], 'event_descriptor.event_status') != 'cancelled']
        w.call(s.created_event, {'ven_id': VEN, 'event_responses': live})
        w.check('a second response reaches no callback', w.all_(len(cbs[0].calls) == 1, len(cbs[1].calls) == 1))


@contract('C05', 'C04', targets=['service.event_service.EventService.created_event'], samples=200)
def created_event_meanwhile(w):
    """While a callback is at work a second response to its event, or a response to another event, may arrive: each callback
    still gets one response, and what leaves the queue is what was confirmed.  A callback that fails is not called again."""
    ids = [w.make('id0', Id()), w.make('id1', Id())]
    w.assume(w.not_(ids[0] == ids[1]))
    q = []
    for i in range(2):
        e = make_event(w, 'e' + str(i), as_obj=False)
        e['event_descriptor']['event_id'] = ids[i]
        q.append(e)
    s = EventService('vtn', 'internal')
    s.events[VEN] = list(q)
    opts = [w.make('opt' + str(i), Enum('optIn', 'optOut')) for i in range(2)]
    second = w.choice('second', 2)
    fails = w.choice('fails', 2) == 1
    got = []

    def response(i, opt):
        return {'ven_id': VEN, 'event_responses': [
            {'event_id': ids[i], 'modification_number': utils.getmember(q[i], 'event_descriptor.modification_number'),
             'opt_type': opt}]}

    async def first(ven_id, event_id, opt_type):
        got.append((0, ven_id, event_id, opt_type))
        if len(got) < 3:
            # a second response to a cancelled event is refused, for it is gone
            if second == 1 or q[0]['event_descriptor']['event_status'] != 'cancelled':
                await s.created_event(response(second, opts[1]))
        if fails:
            raise ValueError('callback')

    async def other(ven_id, event_id, opt_type):
        got.append((1, ven_id, event_id, opt_type))

    s.event_callbacks[ids[0]] = (q[0], first)
    s.event_callbacks[ids[1]] = (q[1], other)
    out = w.try_call(s.created_event, response(0, opts[0]))
    w.check('accepted', w.any_(out.raised is None, fails))
    w.check('each callback once', len(got) == (2 if second == 1 else 1))
    w.check('with the first response', got[0] == (0, VEN, ids[0], opts[0]))
    if second == 1:
        w.check('and the other with its own', got[1] == (1, VEN, ids[1], opts[1]))
    else:
        w.check('the other waits for its response', ids[1] in s.event_callbacks)
    w.check('used up', ids[0] not in s.event_callbacks)
    if fails and q[0]['event_descriptor']['event_status'] != 'cancelled':
        n = len(got)
        w.try_call(s.created_event, response(0, opts[1]))
        w.check('not called again', len(got) == n)
    rest = [q[i] for i in range(2)
            if not ((i == 0 or second == 1) and q[i]['event_descriptor']['event_status'] == 'cancelled')]
    w.check('confirmed cancellations leave the queue, the others stay', same_list(w, s.events[VEN], rest))


@contract('C05', targets=['service.event_service.EventService.created_event'], samples=150)
def created_event_external(w):
    s = EventService('vtn', 'external')
    h = w.cb('on_created_event')
    s.on_created_event = h
    n = w.size('n', 4)
    rs = [{'event_id': w.make('id' + str(i), Id()), 'modification_number': w.make('m' + str(i), Int(0)),
           'opt_type': w.make('opt' + str(i), Enum('optIn', 'optOut'))} for i in range(n)]
    typ, payload = w.call(s.created_event, {'ven_id': VEN, 'event_responses': rs})
    w.check('one call per response', w.all_(len(h.calls) == n, len(h.finished) == n))
    for i in range(n):
        w.check('in order, with its data', h.calls[i][1] == {'ven_id': VEN, 'event_id': rs[i]['event_id'],
                                                             'opt_type': rs[i]['opt_type']})
    w.check('acknowledged', typ == 'oadrResponse')
