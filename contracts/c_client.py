"""The VEN: a client whose network, scheduler and clock are the contract's."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
import asyncio
from apscheduler.schedulers import SchedulerNotRunningError
from openleadr import objects, utils, enums, errors
from openleadr.client import OpenADRClient
from contracts.c_events import make_event, stub_status, status_at


class Job:
    def __init__(self, scheduler, func, trigger, options):
        self.scheduler = scheduler
        self.func = func
        self.trigger = trigger
        self.options = options
        self.removed = 0

    def remove(self):
        self.removed = self.removed + 1


class Scheduler:
    """apscheduler's AsyncIOScheduler"""
    def __init__(self, **kw):
        self.jobs = []
        self.started = 0
        self.running = False
        self.cleared = 0

    def add_job(self, func, trigger=None, args=None, kwargs=None, **options):
        j = Job(self, func, trigger, options)
        self.jobs.append(j)
        return j

    def remove_all_jobs(self):
        self.cleared = self.cleared + 1
        self.jobs = []

    def start(self):
        self.started = self.started + 1
        self.running = True

    def shutdown(self, wait=True):
        if not self.running:
            raise SchedulerNotRunningError
        self.running = False


class Queue:
    """asyncio.Queue"""
    def __init__(self, maxsize=0):
        self.items = []

    async def put(self, x):
        self.items.append(x)

    def put_nowait(self, x):
        self.items.append(x)

    async def get(self):
        if len(self.items) == 0:
            raise asyncio.CancelledError()
        return self.items.pop(0)

    def get_nowait(self):
        if len(self.items) == 0:
            raise asyncio.QueueEmpty()
        return self.items.pop(0)

    def empty(self):
        return len(self.items) == 0

    def qsize(self):
        return len(self.items)

    def task_done(self):
        pass


class Net:
    """The VTN at the other end: records what is sent, answers what the contract says."""
    def __init__(self, answers=None):
        self.created = []
        self.sent = []
        self.answers = answers

    def create(self, message_type, **payload):
        self.created.append((message_type, payload))
        return (message_type, payload)

    async def perform(self, service, message):
        self.sent.append((service, message[0], message[1]))
        if self.answers is None:
            return 'oadrResponse', {}
        r = self.answers(service, message[0], message[1])
        return r

    def of(self, typ):
        return [s for s in self.sent if s[1] == typ]


class Task:
    """asyncio.Task of background work that goes on until it is cancelled"""
    def __init__(self, coro, ended=False):
        self.coro = coro
        self.cancels = 0
        self.ended = ended

    def cancel(self, msg=None):
        self.cancels = self.cancels + 1
        self.ended = True
        return True

    def done(self):
        return self.ended

    def cancelled(self):
        return self.cancels > 0


class TaskLoop:
    def __init__(self):
        self.tasks = []

    def create_task(self, coro, *, name=None, context=None):
        if hasattr(coro, 'close'):
            coro.close()
        t = Task(coro)
        self.tasks.append(t)
        return t


# what the protocol needs in each message of a VEN, and the service it is for
SERVICE = {'oadrPoll': 'OadrPoll', 'oadrQueryRegistration': 'EiRegisterParty', 'oadrCreatePartyRegistration': 'EiRegisterParty',
           'oadrCancelPartyRegistration': 'EiRegisterParty', 'oadrCanceledPartyRegistration': 'EiRegisterParty',
           'oadrRequestEvent': 'EiEvent', 'oadrCreatedEvent': 'EiEvent', 'oadrCreateOpt': 'EiOpt', 'oadrCancelOpt': 'EiOpt',
           'oadrRegisterReport': 'EiReport', 'oadrRegisteredReport': 'EiReport', 'oadrCreatedReport': 'EiReport',
           'oadrUpdateReport': 'EiReport', 'oadrCanceledReport': 'EiReport', 'oadrResponse': 'EiRegisterParty'}
NEEDS = {'oadrPoll': (), 'oadrQueryRegistration': ('request_id',),
         'oadrCreatePartyRegistration': ('request_id', 'ven_name', 'profile_name', 'transport_name', 'report_only',
                                         'xml_signature', 'http_pull_model'),
         'oadrCancelPartyRegistration': ('request_id', 'registration_id'),
         'oadrCanceledPartyRegistration': ('response', 'registration_id'), 'oadrRequestEvent': ('request_id',),
         'oadrCreatedEvent': ('response', 'event_responses'),
         'oadrCreateOpt': ('request_id', 'opt_id', 'opt_type', 'opt_reason', 'targets', 'created_date_time'),
         'oadrCancelOpt': ('request_id', 'opt_id'), 'oadrRegisterReport': ('request_id', 'reports'),
         'oadrRegisteredReport': ('response', 'report_requests'), 'oadrCreatedReport': ('response', 'pending_reports'),
         'oadrUpdateReport': ('request_id', 'reports'), 'oadrCanceledReport': ('response',), 'oadrResponse': ('response',)}
NO_VEN = ('oadrQueryRegistration', 'oadrCreatePartyRegistration')


def check_sent(w, net, ven_id='ven1'):
    """Every message the VEN sends goes to the service of its kind and has all that the protocol needs; every request has
    an id of its own."""
    ids = []
    for service, typ, p in net.sent:
        w.check('a message of the protocol', typ in SERVICE)
        w.check('to the service it is for', service == SERVICE[typ])
        for k in NEEDS[typ]:
            w.check('the message is complete', p.get(k) is not None)
        if typ not in NO_VEN:
            w.check('from this VEN', w.eq(p.get('ven_id'), ven_id))
        if 'response' in NEEDS[typ]:
            check_answer(w, p['response'], 'request_id' in p['response'] and typ == 'oadrResponse')
        for r in p.get('event_responses') or []:
            check_answer(w, r)
        if 'request_id' in NEEDS[typ]:
            for i in ids:
                w.check('every request has its own id', w.not_(w.eq(i, p['request_id'])))
            ids.append(p['request_id'])


def check_answer(w, r, unasked=False):
    w.check('the answer has a code', r.get('response_code') is not None)
    w.check('the answer says whether it went well', w.iff(w.eq(r.get('response_description'), 'OK'), r['response_code'] == 200))
    w.check('the answer says something', r.get('response_description') is not None)
    w.check('the answer says to what', w.any_(unasked, r.get('request_id') is not None))


def make_client(w, answers=None, **kw):
    w.patch('apscheduler.schedulers.asyncio.AsyncIOScheduler', Scheduler)
    w.patch('asyncio.Queue', Queue)
    w.patch('tzlocal.get_localzone', lambda: 'UTC')
    c = OpenADRClient('ven', 'http://vtn.example', **kw)
    c.ven_id = 'ven1'
    c.registration_id = 'reg1'
    net = Net(answers)
    c._create_message = net.create
    c._perform_request = net.perform
    return c, net


STATUSES = ('far', 'near', 'active', 'completed', 'cancelled')


def ven_event(w, name, signals=1, status=None):
    """an event as the parser delivers it"""
    e = {'event_descriptor': {'event_id': w.make(name + '.id', Id()),
                              'event_status': w.make(name + '.status', Enum(*STATUSES)) if status is None else status,
                              'modification_number': w.make(name + '.mod', Int(0, 5))},
         'active_period': {'dtstart': w.make(name + '.start', DT()), 'duration': w.make(name + '.dur', Dur())},
         'response_required': w.make(name + '.req', Enum('always', 'never')),
         'event_signals': [{'signal_name': w.make(name + '.signal' + str(i), Enum('SIMPLE', 'LOAD_DISPATCH', 'x-own', 'FOO'))}
                           for i in range(signals)]}
    return e


def eid(e):
    return e['event_descriptor']['event_id']


def mod(e):
    return e['event_descriptor']['modification_number']


def opt_for(w, result):
    """what is answered for a handler result"""
    return w.ite(w.any_(w.eq(result, 'optIn'), w.eq(result, 'optOut')), result, 'optOut')


RESULT = OneOf(Const('optIn'), Const('optOut'), Const(None), Const('maybe'))


def check_response(w, r, e, opt, rid):
    known = w.all_(*[s['signal_name'] in enums.SIGNAL_NAME.values for s in e['event_signals']])
    w.check('the response names the event', w.all_(w.eq(r['event_id'], eid(e)), r['modification_number'] == mod(e)))
    w.check('the response carries the decision', w.eq(r['opt_type'], opt))
    w.check('the response answers the request', w.eq(r['request_id'], rid))
    w.check('the response says whether the signals are supported', w.iff(r['response_code'] == 200, known))


def previous(w, c, name):
    """an event received earlier, perhaps answered"""
    old = ven_event(w, name)
    answered = w.choice(name + '.answered', 2) == 1
    c.received_events.append(old)
    ans = None
    if answered:
        ans = w.make(name + '.answer', Enum('optIn', 'optOut'))
        c.responded_events[eid(old)] = ans
    return old, answered, ans


@contract('C15', targets=['client.OpenADRClient._on_event'], samples=500, budget=150)
def on_event_one(w):
    """One event: handler called when and only when due, and answered once."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    old, answered, ans = previous(w, c, 'old')
    e = ven_event(w, 'e', signals=1 + w.choice('signals', 3))
    raises = w.choice('raises', 2) == 1
    on_event = w.cb('on_event', ret=RESULT, raises=AnyError if raises else None)
    on_update = w.cb('on_update', ret=RESULT, raises=AnyError if raises else None)
    c.on_event = on_event
    c.on_update_event = on_update
    known = eid(e) == eid(old)
    repeat = w.all_(known, mod(e) == mod(old), answered)
    ended = utils.determine_event_status(e['active_period']) == 'completed'
    rid = 'req1'
    w.call(c._on_event, {'vtn_id': 'VTN', 'request_id': rid, 'events': [e]})
    if not known:
        w.check('a new event goes to on_event', w.all_(len(on_event.calls) == 1, len(on_update.calls) == 0))
        w.check('with the event', w.same(on_event.calls[0][0][0], e))
        h = on_event
    elif not repeat:
        w.check('a changed event goes to on_update_event', w.all_(len(on_event.calls) == 0, len(on_update.calls) == 1))
        w.check('with the event', w.same(on_update.calls[0][0][0], e))
        h = on_update
    else:
        w.check('an unchanged event goes to no handler', w.all_(len(on_event.calls) == 0, len(on_update.calls) == 0))
        h = None
    if h is not None:
        result = h.results[0] if len(h.results) > 0 else 'optOut'
        w.check('remembered once, in its latest form', len([x for x in c.received_events if w.same(x, e)]) == 1)
    else:
        result = ans
    w.check('at most one copy of an event', len([x for x in c.received_events if eid(x) == eid(e)]) == 1)
    if not known:
        w.check('other events stay', len([x for x in c.received_events if w.same(x, old)]) == 1)
    sent = net.of('oadrCreatedEvent')
    due = w.all_(e['response_required'] == 'always', w.not_(ended))
    if due:
        w.check('answered once', w.all_(len(sent) == 1, len(net.sent) == 1))
        p = sent[0][2]
        w.check('to the event service', sent[0][0] == 'EiEvent')
        w.check('one response', len(p['event_responses']) == 1)
        w.check('from this VEN', w.all_(p['ven_id'] == 'ven1', p['response']['response_code'] == 200,
                                        p['response']['request_id'] == rid))
        check_response(w, p['event_responses'][0], e, opt_for(w, result), rid)
    else:
        w.check('not answered', len(net.sent) == 0)
    check_sent(w, net)


@contract('C15', targets=['client.OpenADRClient._on_event'], samples=400, budget=150)
def on_event_two(w):
    """Two new events in one message: every one gets its own decision, whatever happens to the other."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    es = [ven_event(w, 'a'), ven_event(w, 'b')]
    w.assume(w.not_(eid(es[0]) == eid(es[1])))
    ok = w.make('ok', Enum('optIn', 'optOut'))
    kind = w.choice('kind', 5)

    def decide(event):
        if kind == 4:
            return 'perhaps'
        if w.same(event, es[0]):
            if kind == 1:
                raise AnyError('handler fails')
            if kind == 2:
                return None
        if w.same(event, es[1]) and kind == 3:
            raise AnyError('handler fails')
        return ok

    on_event = w.cb('on_event', fn=decide, mode='sync')
    c.on_event = on_event
    due = []
    want = ['optOut' if kind in (1, 2, 4) else ok, 'optOut' if kind in (3, 4) else ok]
    for i in range(2):
        ended = utils.determine_event_status(es[i]['active_period']) == 'completed'
        if w.all_(es[i]['response_required'] == 'always', w.not_(ended)):
            due.append(i)
    w.call(c._on_event, {'vtn_id': 'VTN', 'request_id': 'req1', 'events': es})
    w.check('each is given to the handler once', len(on_event.calls) == 2)
    w.check('both are remembered', len(c.received_events) == 2)
    sent = net.of('oadrCreatedEvent')
    if len(due) == 0:
        w.check('not answered', len(net.sent) == 0)
    else:
        w.check('one answer', w.all_(len(sent) == 1, len(net.sent) == 1))
        rs = sent[0][2]['event_responses']
        w.check('a response for each event that wants one', len(rs) == len(due))
        for k in range(len(due)):
            check_response(w, rs[k], es[due[k]], want[due[k]], 'req1')
    check_sent(w, net)
    # whatever happened to the decisions, they stay the same when the events come again
    w.call(c._on_event, {'vtn_id': 'VTN', 'request_id': 'req2', 'events': [w.deepcopy(e) for e in es]})
    sent = net.of('oadrCreatedEvent')
    w.check('answered again', len(sent) == (0 if len(due) == 0 else 2))
    for k in range(len(due)):
        w.check('in the same way', w.eq(sent[1][2]['event_responses'][k]['opt_type'], want[due[k]]))
    w.check('without asking again', len(on_event.calls) == 2)


@contract('C15', targets=['client.OpenADRClient._on_event'], samples=400, budget=150)
def on_event_mixed(w):
    """A new, a changed and an unchanged event in one message, in any order: each is treated as if it came alone."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    old = [ven_event(w, 'o' + str(i)) for i in range(2)]
    new, same, changed = ven_event(w, 'new'), w.deepcopy(old[0]), ven_event(w, 'changed')
    for i in range(2): old[i]['event_descriptor']['event_id'] = 'event' + str(i)
    same['event_descriptor']['event_id'] = 'event0'
    changed['event_descriptor']['event_id'] = 'event1'
    new['event_descriptor']['event_id'] = 'event2'
    starts = []
    w.assume(mod(changed) > mod(old[1]))
    for e in (new, same, changed):
        e['active_period']['dtstart'] = now + w.make('in' + str(len(starts)), Dur())
        starts.append(e)
        w.assume(w.not_(utils.determine_event_status(e['active_period']) == 'completed'))
    c.received_events.append(old[0])
    c.received_events.append(old[1])
    before = [w.make('before' + str(i), Enum('optIn', 'optOut')) for i in range(2)]
    for i in range(2): c.responded_events['event' + str(i)] = before[i]
    ORDERS = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
    order = ORDERS[w.choice('order', 6)]
    kinds = (new, same, changed)
    es = [kinds[k] for k in order]
    on_event = w.cb('on_event', ret=Enum('optIn', 'optOut', 'maybe'))
    on_update = w.cb('on_update', ret=Enum('optIn', 'optOut', 'maybe'))
    c.on_event = on_event
    c.on_update_event = on_update
    w.call(c._on_event, {'vtn_id': 'VTN', 'request_id': 'r', 'events': es})
    w.check('the new one goes to on_event', w.all_(len(on_event.calls) == 1, w.same(on_event.calls[0][0][0], new)))
    w.check('the changed one goes to on_update_event', w.all_(len(on_update.calls) == 1, w.same(on_update.calls[0][0][0], changed)))
    w.check('each is remembered once', w.all_(len(c.received_events) == 3, *[len([x for x in c.received_events if eid(x) == eid(e)]) == 1
                                                                           for e in es]))
    want = [opt_for(w, on_event.results[0]), before[0], opt_for(w, on_update.results[0])]
    due = [k for k in order if kinds[k]['response_required'] == 'always']
    sent = net.of('oadrCreatedEvent')
    w.check('answered', len(sent) == (1 if due else 0))
    if due:
        rs = sent[0][2]['event_responses']
        w.check('one response for each', len(rs) == len(due))
        for i in range(len(due)): check_response(w, rs[i], kinds[due[i]], want[due[i]], 'r')


@contract('C15', targets=['client.OpenADRClient._on_event'], samples=300)
def on_event_refused(w):
    """If the VTN is not who it should be, its events do not reach the application: all of them are opted out of."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    es = [ven_event(w, 'a'), ven_event(w, 'b')]
    w.assume(w.not_(eid(es[0]) == eid(es[1])))
    on_event = w.cb('on_event', ret=Const('optIn'))
    c.on_event = on_event
    c.on_update_event = on_event
    due = [i for i in range(2) if w.all_(es[i]['response_required'] == 'always',
                                         w.not_(utils.determine_event_status(es[i]['active_period']) == 'completed'))]
    o = w.try_call(c._on_event, {'vtn_id': 'vtn1', 'request_id': 'r', 'events': es})
    w.check('no failure', o.raised is None)
    w.check('the application does not see them', len(on_event.calls) == 0)
    sent = net.of('oadrCreatedEvent')
    w.check('answered', len(sent) == (1 if due else 0))
    if due:
        p = sent[0][2]
        w.check('as an error', w.all_(p['response']['response_code'] != 200, p['ven_id'] == 'ven1', p['response']['request_id'] == 'r'))
        w.check('one response for each', len(p['event_responses']) == len(due))
        for i in range(len(due)): check_response(w, p['event_responses'][i], es[due[i]], 'optOut', 'r')


@contract('C15', targets=['client.OpenADRClient._on_event'], samples=400, budget=150)
def on_event_redelivered(w):
    """The same event delivered repeatedly and unchanged is decided once and answered every time in the same way."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    e = ven_event(w, 'e')
    w.assume(e['response_required'] == 'always')
    w.assume(w.not_(utils.determine_event_status(e['active_period']) == 'completed'))
    on_event = w.cb('on_event', ret=RESULT)
    on_update = w.cb('on_update', ret=RESULT)
    c.on_event = on_event
    c.on_update_event = on_update
    for k in range(3):
        w.call(c._on_event, {'vtn_id': 'VTN', 'request_id': 'req', 'events': [w.deepcopy(e)]})
    w.check('decided once', w.all_(len(on_event.calls) == 1, len(on_update.calls) == 0))
    sent = net.of('oadrCreatedEvent')
    w.check('answered every time', len(sent) == 3)
    for s in sent:
        w.check('in the same way', w.eq(s[2]['event_responses'][0]['opt_type'], opt_for(w, on_event.results[0])))


@contract('C16', targets=['client.OpenADRClient._event_cleanup'], samples=400)
def cleanup(w):
    """The clean-up forgets exactly the events that are over."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    n = w.size('n', 4, 5)
    es = [ven_event(w, 'e' + str(i), signals=0) for i in range(n)]
    w.assume(w.all_(True, *[w.not_(eid(es[i]) == eid(es[j])) for i in range(n) for j in range(i)]))
    decided = []
    for e in es:
        c.received_events.append(e)
        d = w.flag('decided' + str(len(decided)))
        decided.append(d)
        if d:
            c.responded_events[eid(e)] = 'optIn'
    over = [w.any_(e['event_descriptor']['event_status'] == 'cancelled',
                   utils.determine_event_status(e['active_period']) == 'completed') for e in es]
    rest = [es[i] for i in range(n) if not over[i]]
    w.call(c._event_cleanup)
    left = c.received_events
    w.check('events that are over are forgotten, the others stay', len(left) == len(rest))
    for e in rest:
        w.check('others stay', w.any_(*[w.same(e, x) for x in left]))
    for i in range(n):
        w.check('with their decisions', w.iff(eid(es[i]) in c.responded_events, w.all_(decided[i], w.not_(over[i]))))


@contract('C16', targets=['client.OpenADRClient._event_status_log'], samples=400)
def status_log(w):
    """The status of every event follows the clock; cancelled events stay cancelled."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    n = w.size('n', 4, 5)
    es = [ven_event(w, 'e' + str(i), signals=0) for i in range(n)]
    for i in range(n):
        if i == 0:
            ramp = w.make('ramp', Opt(Dur()))
            if ramp is not None:
                es[i]['active_period']['ramp_up'] = ramp
        c.received_events.append(es[i])
    was = [e['event_descriptor']['event_status'] for e in es]
    want = [w.ite(was[i] == 'cancelled', 'cancelled', utils.determine_event_status(es[i]['active_period'])) for i in range(n)]
    w.call(c._event_status_log)
    w.check('no event is lost', len(c.received_events) == n)
    for i in range(n):
        w.check('status follows the clock', w.eq(es[i]['event_descriptor']['event_status'], want[i]))
        w.check('same events', w.same(c.received_events[i], es[i]))


@contract('C15', 'C29', targets=['client.OpenADRClient._on_event', 'client.OpenADRClient.on_event',
                                 'client.OpenADRClient.on_update_event'], samples=300)
def default_decisions(w):
    """Without handlers a new event is declined, and a changed one is answered as before."""
    now = w.freeze()
    stub_status(w, now)
    c, net = make_client(w)
    old, answered, ans = previous(w, c, 'old')
    e = ven_event(w, 'e')
    known = eid(e) == eid(old)
    w.call(c._on_event, {'vtn_id': 'VTN', 'request_id': 'r', 'events': [e]})
    sent = net.of('oadrCreatedEvent')
    due = w.all_(e['response_required'] == 'always', utils.determine_event_status(e['active_period']) != 'completed')
    w.check('answered exactly if due', w.iff(due, len(sent) == 1))
    if due:
        check_response(w, sent[0][2]['event_responses'][0], e, ans if known and answered else 'optOut', 'r')


@contract('C15', 'C33', targets=['client.OpenADRClient.created_event'], samples=100)
def created_event_by_hand(w):
    """The application's own answer to an event says what it is asked to say."""
    c, net = make_client(w)
    rid, ev, opt, n = w.make('rid', Id()), w.make('ev', Id()), w.make('opt', Enum('optIn', 'optOut')), w.make('n', Int(0, 9))
    more = w.flag('mod')
    w.call(c.created_event, rid, ev, opt, n) if more else w.call(c.created_event, rid, ev, opt)
    w.check('sent once', len(net.sent) == 1)
    service, t, p = net.sent[0]
    w.check('to the event service', w.all_(service == 'EiEvent', t == 'oadrCreatedEvent', p['ven_id'] == 'ven1',
                                           w.eq(p['response']['request_id'], rid), len(p['event_responses']) == 1))
    r = p['event_responses'][0]
    w.check('this decision about this event', w.all_(w.eq(r['event_id'], ev), w.eq(r['opt_type'], opt), w.eq(r['request_id'], rid),
                                                     r['modification_number'] == (n if more else 0), r['response_code'] == 200))
    check_sent(w, net)
